"""Per property: how it is decided (DESIGN.md section 2)."""
SAT = "symbolic rules (kind, states, labels), symbolic automaton edges and a symbolic query configuration"
HOW = {
"P01": (SAT + "; post* is run on the real automaton and asked for the query", "naive post* on an edge list with one extra state per pushed (state, label), iterated to a fixed point", "query stacks up to 3, 2-3 rules: all ways rules and edges can feed each other; tests have fixed examples"),
"P02": (SAT + "; pre* is run on the real automaton", "naive forward search from the query: can it reach a configuration of the target automaton (post* of the single configuration, intersected)", "as P01, backwards, with the intermediate push index"),
"P03": ("Solver::post_star/pre_star/dual_search (with and without early termination) on two symbolic automata and symbolic rules", "naive post* of the initial automaton intersected with the target automaton", "early termination, incremental product and both directions must agree with plain reachability"),
"P04": ("as P03, then get_trace / get_rule_trace_and_paths", "each step of the trace is compared with all rules, endpoints with the two automata, automaton paths edge by edge; the rule trace is replayed", "trace reconstruction depends on which of several edges was found first"),
"P05": ("shortest traces with symbolic weights: solver with single-configuration endpoints, and saturated automata with shortest accepting paths", "naive weighted fixed point giving the minimum over all runs; the trace must be a run and attain it", "weights stay symbolic: the solver decides each comparison, so all orders of weights are covered"),
"P06": ("fixed-point search for longest traces and for negative weights", "naive weighted fixed point with cycle detection: unbounded exactly if an improving cycle lies on an accepting run", "unbounded vs bounded is decided for all weights in -1000..1000"),
"P07": ("weight operations on symbolic values for 4 integer types, scalar/array/vector shapes, min and max", "algebraic laws (associativity, neutral element, total order, monotonicity) as assertions", "all values without overflow; no enumeration"),
"P08": ("linear weight functions with symbolic scales and atoms, nested up to 3 terms", "direct evaluation of the formula in 64-bit", "all coefficients and values in range"),
"P09": ("sequences of operations with symbolic keys on fut::set in all container combinations", "naive list of tuples", "insert position and iterator validity depend on key order: all orders"),
"P10": ("NFA combinators applied in every sequence up to the bound (choice of combinator is a case split, labels and words symbolic)", "language by definition: matrix of spans computed per regular expression node", "copying and looping NFAs share states"),
"P11": ("automata built from NFAs (ids and typed labels) and from configurations", "language of the regular expression and membership in the state list", "label numbering is symbolic through three arbitrary distinct labels"),
"P12": ("rule additions with symbolic labels, operations and weights through the untyped and the typed interface", "naive list of rules", "merging of duplicate rules, label sets and wildcards in any order"),
"P13": ("Reducer::reduce at every level on symbolic systems", "a symbolic run of the original system is simulated; each rule and pre-label it uses must survive", "run and system are both symbolic"),
"P14": ("product of two symbolic automata, some edges added afterwards", "membership in both automata, and search for a common configuration over pairs", "waiting edges and orientation"),
"P15": ("or_extend and copies of symbolic automata", "membership in either", "state renumbering"),
"P16": ("operation sequences on AutomatonPath with symbolic states and labels", "two plain vectors", "order and epsilon removal for all lengths up to the bound"),
"P17": ("accepts / accept_path / find_path / shortest variants on symbolic automata", "enumeration of runs on the edge list, minimum over them", "pruning and back pointers"),
"P18": ("make_refinement and Refinement::combine on symbolic pairs", "separation of each good pair from each bad pair and wildcard, checked directly", "conflict patterns between pairs"),
"P19": ("successor and edge queries on a symbolic NFA", "direct definition over the edge list", "negation, epsilon and label intersection"),
"P20": ("label abstraction with arbitrary labels and abstraction function, one refinement, automaton over abstract labels", "classes by definition; abstract word accepted iff some concrete word of the NFA maps to it", "negated edges over classes"),
"P21": ("is_disjoint on symbolic sorted vectors; operation sequences on the priority work list", "direct definition; naive multiset", "search order"),
"P22": ("factories with symbolic rules, labels, weights, any sets of initial and accepting states, header languages; the instance is moved, then solved by each engine", "textbook saturation on the described system; naive minimum", "which states occur in rules"),
"P23": ("the token handler fed with the events of a document with symbolic rules, weights and shapes", "the rules of the document, compared as sets per state and label", "hand-written state machine"),
"P24": ("writers (nlohmann json tree is executed too), readers, dispatching reader of instances", "the written object; languages compared on all words up to length 2; textbook reachability for instances", "writer and reader must agree"),
"P25": ("CEGAR loop with a factory and reconstruction over symbolic rules and an arbitrary initial partition of labels (and of states)", "textbook saturation on the concrete system", "depends on the refinement history"),
"P26": ("the PEGTL grammar with its actions on a text of symbolic characters, then the resulting NFA on a symbolic word", "independent recursive-descent reader building span matrices of the word", "actions are not undone on backtracking"),
"P27": ("the P-automaton grammar and builder on texts with symbolic characters in seven patterns; the resulting automaton on every state and a symbolic stack", "recursive-descent reader; per alternative a set of states and a language", "shared builder state, lookup of names"),
"P28": ("Verifier::verify with stand-ins for the option parser and a recording output stream, all engines and trace types on symbolic systems; json_stream separately", "textbook optimum over all runs (Kleene rounds, then propagation of infinity); strict reader of the printed text", "one dispatch branch per combination"),
}
