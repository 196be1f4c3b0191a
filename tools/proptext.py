"""Property texts; tools/gen.py writes properties.jsonl and MANIFEST.json from here and props.py."""
I = "src/include/pdaaal/"
def p(id, title, statement, over, qtext, why, files, mech): return dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": qtext}, why_tests_cant=why, anchors={"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]})
TEXT = [
p("P01", "Forward saturation accepts exactly the reachable configurations",
  "For a pushdown system and a finite automaton describing a set of configurations (control state plus stack), the automaton after forward saturation (post*) accepts a configuration if and only if it can be reached from the initial set by applying rules. This holds for pop, swap, push and no-op rules, rules with and without a wildcard pre-label, automata that share or chain states, and query stacks of any length including the empty stack.",
  ["inputs", "programs"], "all pushdown systems, all initial automata and all query configurations (checked: up to 2-3 rules, 2 states, 2 labels, automata with up to 2 edges, stacks up to length 3)",
  "Tests sample a few fixed systems; the claim is an equivalence for every rule set, automaton and query. Nothing compares against an independent fixed point.",
  [I+"internal/PdaSaturation.h", I+"internal/PAutomaton.h", I+"internal/PAutomatonAlgorithms.h"],
  [("post* saturation rules and epsilon handling", I+"internal/PdaSaturation.h"), ("acceptance by the saturated automaton", I+"internal/PAutomaton.h")]),
p("P02", "Backward saturation accepts exactly the configurations that reach the target",
  "For a pushdown system and a finite automaton describing a set of target configurations, the automaton after backward saturation (pre*) accepts a configuration if and only if applying rules from it can reach the target set. This holds for pop, swap, push and no-op rules, with and without wildcard pre-labels, and for query stacks of any length including the empty stack.",
  ["inputs", "programs"], "all pushdown systems, all target automata and all query configurations (checked: up to 2-3 rules, 2 states, 2 labels, up to 2 edges, stacks up to length 3)",
  "Tests sample a few fixed systems; the claim is an equivalence for every rule set, automaton and query.",
  [I+"internal/PdaSaturation.h", I+"internal/PAutomaton.h", I+"internal/PDA.h"],
  [("pre* saturation, delta-prime edges, bulk insertion", I+"internal/PdaSaturation.h"), ("predecessor-state index used to find rules", I+"internal/PDA.h")]),
p("P03", "Every solver engine answers reachability between regular sets correctly",
  "Asked whether some configuration of an initial regular set can reach some configuration of a target regular set, the solver answers yes exactly when such a run exists. Forward, backward and bidirectional search, with and without early termination, all give that same answer.",
  ["inputs", "programs", "configurations"], "all pushdown systems and pairs of automata, all engines (checked: 2-3 rules, 2 states, 2 labels, automata with up to 2 edges)",
  "Early termination, on-the-fly product construction and the two-sided search interact per input; tests run a handful of examples per engine and never cross-check all engines on arbitrary systems.",
  [I+"Solver.h", I+"PAutomatonProduct.h", I+"internal/PAutomatonAlgorithms.h", I+"internal/PdaSaturation.h"],
  [("early-terminating searches and products", I+"Solver.h"), ("on-the-fly product of initial/final automata", I+"PAutomatonProduct.h")]),
p("P04", "A reported witness trace is a real run between the two sets",
  "When the solver answers yes, the trace it reports starts in a configuration of the initial set, ends in a configuration of the target set, and every two consecutive configurations are one rule application apart. The rule-sequence form of the trace replays from the reported initial stack to the reported final stack, and the automaton paths reported with it accept exactly those stacks; when the answer is no, the trace is empty.",
  ["inputs", "programs", "configurations"], "all pushdown systems, automata pairs and engines (checked: 2 rules, 2 states, 2 labels, automata with up to 2 edges)",
  "A trace is correct relative to the input; tests compare a few printed traces and never replay traces of arbitrary systems.",
  [I+"Solver.h", I+"internal/PAutomaton.h", I+"PAutomatonProduct.h"],
  [("trace reconstruction from edge annotations", I+"Solver.h"), ("trace bookkeeping on automaton edges", I+"internal/PAutomaton.h")]),
p("P05", "Shortest-trace search returns the minimum weight and a run attaining it",
  "With non-negative rule weights and shortest-trace mode, the weight reported for a reachable target is the minimum total weight over all runs from the initial to the target set, and the reported trace is a real run whose rule weights sum to that value. This holds for forward, backward and bidirectional search, and for the weight of an accepting path in a weighted saturated automaton.",
  ["inputs", "programs", "configurations"], "all weighted pushdown systems with non-negative weights, all single-configuration endpoints (checked: 2-3 rules, 2 states, 2 labels, 32-bit weights up to 10^6, stacks up to length 2)",
  "Minimality quantifies over all runs and weight assignments; tests check a few hand-made systems.",
  [I+"internal/PdaSaturation.h", I+"PAutomatonProduct.h", I+"Solver.h", I+"internal/PAutomaton.h"],
  [("weighted worklists and weight improvement", I+"internal/PdaSaturation.h"), ("weighted product path search", I+"PAutomatonProduct.h"), ("shortest accepting path", I+"internal/PAutomaton.h")]),
p("P06", "Fixed-point search returns the exact optimum or reports that it is unbounded",
  "In longest-trace mode, and in shortest-trace mode with negative weights allowed, the solver's answer is exactly reachability. If the optimum over all runs is finite, the reported weight is that optimum and the trace is a real run attaining it; if runs of unboundedly good weight exist, the reported weight is infinity, and never otherwise. This holds for forward, backward and interleaved fixed-point search and for signed and unsigned weights.",
  ["inputs", "programs", "configurations"], "all weighted pushdown systems and single-configuration endpoints (checked: 2-3 rules, 1-2 states, 2 labels, 32-bit weights within +-1000, stacks up to length 2)",
  "Round limits and the propagation of infinity matter only for particular cyclic systems and weight signs; tests have a few examples.",
  [I+"internal/PdaSaturation.h", I+"internal/PAutomatonAlgorithms.h", I+"utils/workset.h", I+"Solver.h"],
  [("fixed-point saturation", I+"internal/PdaSaturation.h"), ("rounds and finalisation", I+"utils/workset.h"), ("fixed-point path search", I+"internal/PAutomatonAlgorithms.h")]),
p("P07", "Weight types form an ordered commutative monoid with an absorbing infinity",
  "For every weight type (scalar, fixed array and vector weights; min and max orientation) adding is associative and commutative with zero as identity and infinity absorbing, and less-than is a strict total preorder consistent with addition, with zero and infinity where the orientation puts them. Vectors of different length behave as if padded with zeros and no comparison or addition reads outside the operands.",
  ["inputs"], "all weight values of the types used (checked: 32-bit signed and unsigned values without overflow, arrays of 2, vectors up to length 3)",
  "Shortest and longest search are only correct if these laws hold for all values and lengths; tests compare a few constants.",
  [I+"Weight.h"], [("min_weight / max_weight add, less, zero, bottom", I+"Weight.h")]),
p("P08", "Weight-function expressions compute the linear combination they denote",
  "A linear weight function built from atoms and integer scale factors evaluates to the sum of scale times atom over its terms, and an ordered weight function evaluates to the vector of its component values, in order. This holds for every nesting order of sums and products and for values near the limits of the result type.",
  ["inputs"], "all scale factors and atom values whose result fits the result type (checked: up to 3 terms, 32- and 64-bit types)",
  "Intermediate types and term order matter only for particular values; tests use small constants.",
  [I+"Weight.h"], [("linear_weight_function, ordered_weight_function", I+"Weight.h")]),
p("P09", "The set and map containers behave as sorted sets and maps",
  "The vector-based set and map, and the nested tuple sets and maps built from them with vector or hash levels, behave as sets and maps for every sequence of operations: emplace keeps an existing entry and reports whether it is new, insert_or_assign overwrites, find, contains and lower_bound agree with the contents, and vector levels iterate in strictly ascending key order. Converting a hash container to a vector container keeps exactly the entries.",
  ["inputs", "histories"], "all operation sequences and keys (checked: 3-4 operations, or 6 insertions, on symbolic keys, 1-3 levels)",
  "Ordering and duplicates depend on the insertion history; all saturation procedures rely on it.",
  [I+"utils/fut_set.h", I+"utils/vector_set.h"], [("binary-search insertion", I+"utils/vector_set.h"), ("nested containers", I+"utils/fut_set.h")]),
p("P10", "NFA combinators recognise exactly the regular expression they build",
  "An NFA assembled from symbol sets, negated sets, wildcards and the empty word with concatenation, union, optional, plus and star accepts a word if and only if the word matches that regular expression. Copying and assigning NFAs (also to themselves or over a non-empty NFA) preserves the language and leaves the copies independent.",
  ["inputs", "programs"], "all expressions and words (checked: up to 5 construction steps, words up to length 3 over 3 symbols)",
  "Edge redirection and shared states go wrong only for particular nestings; tests have a few examples.",
  [I+"NFA.h"], [("concat, or_extend, question/plus/star_extend, copy construction and assignment", I+"NFA.h"), ("epsilon closure", I+"NFA.h")]),
p("P11", "An automaton built from an NFA accepts exactly the given states with its words",
  "The automaton built from an NFA and a list of control states accepts (p, w) if and only if p is in the list and the NFA accepts w, for label-typed and id-typed NFAs, negated and wildcard edges, the empty word, and whatever order the labels were introduced in. The automaton built from one configuration accepts that configuration and no other.",
  ["inputs", "programs"], "all NFAs, state lists and queries (checked: up to 3-4 construction steps, words up to length 2, 3 labels)",
  "Negated edges depend on label numbering and initial states on the shape of the NFA; tests use few NFAs.",
  [I+"internal/PAutomaton.h", I+"PAutomaton.h", I+"NFA.h"], [("construction from an NFA", I+"internal/PAutomaton.h"), ("label encoding", I+"PAutomaton.h")]),
p("P12", "The rule store holds exactly the rules that were added",
  "After any sequence of additions, with single labels, label lists in any order or wildcards, each control state holds exactly the added rules, each once, each applicable to exactly the labels it was added for, and the predecessor index leads from every state to the states that have a rule into it. This survives conversion from the hash-based builder to the final pushdown system; label-set union, intersection and filtering are exact; clearing a state removes the rules from and to it and no others.",
  ["inputs", "histories"], "all sequences of rule additions (checked: 2-3 additions with symbolic labels, weights and operations, 2 states)",
  "Duplicate and reordered additions merge into one entry; tests add few rules in canonical order.",
  [I+"internal/PDA.h", I+"internal/PDA.cpp", I+"PDA.h"], [("rule insertion and predecessor index", I+"internal/PDA.h"), ("label set operations", I+"internal/PDA.cpp"), ("typed front end", I+"PDA.h")]),
p("P13", "Reduction preserves every run from the initial to the terminal state",
  "Reducing a pushdown system at any aggressiveness keeps every rule, with every pre-label, that is used on some run which pushes the first label from the initial state and later enters the terminal state, whichever states those are. It adds no rule and no pre-label, keeps pre-label sets sorted and free of duplicates, removes no state, and the reported size after reduction is not larger than the size before.",
  ["inputs", "programs", "configurations"], "all pushdown systems, initial and terminal states and aggressiveness levels (checked: 3 states, 2 labels, 3-4 rules with single or wildcard pre-labels, runs of up to 5 rules)",
  "Which labels can be on top of the stack where is a fixed point over the whole system; tests reduce one example.",
  [I+"internal/Reducer.h", I+"internal/Reducer.cpp"], [("top-of-stack and second-label approximation", I+"internal/Reducer.h"), ("pruning of rules and pre-labels", I+"internal/Reducer.h"), ("label set intersection", I+"internal/Reducer.cpp")]),
p("P14", "The product of two automata accepts exactly the intersection, also incrementally",
  "The product automaton of an initial and a final automaton accepts a configuration if and only if both automata accept it, and it reports non-emptiness, and finds a path, exactly when such a configuration exists; the path is an accepting run of both automata. This holds when edges are added to one automaton after the product was set up, with and without stopping at the first accepting pair, and in both orientations.",
  ["inputs", "histories"], "all pairs of automata and orders of adding edges (checked: 2 control states, up to 2 extra states, 2-3 edges each, query stacks up to length 2)",
  "An edge added late must wake up all waiting pairs; tests only build whole instances.",
  [I+"PAutomatonProduct.h"], [("product construction and waiting edges", I+"PAutomatonProduct.h"), ("path search on the product", I+"PAutomatonProduct.h")]),
p("P15", "Automaton union accepts exactly either language and copies are independent",
  "Extending a configuration automaton with another one gives an automaton that accepts a configuration if and only if one of the two accepted it, also when control states accept the empty stack, and it keeps track of its accepting states. A copy accepts the same configurations, and changing it leaves the original unchanged.",
  ["inputs"], "all pairs of automata and queries (checked: 2 control states, 1-2 extra states, 1-2 edges each, stacks up to length 2-3)",
  "State renumbering goes wrong only for particular shapes; no test compares languages.",
  [I+"internal/PAutomaton.h"], [("or_extend and copying", I+"internal/PAutomaton.h")]),
p("P16", "Automaton paths hold exactly the states and labels put into them",
  "A path built from states and labels, or edge by edge, gives back exactly those states and labels in order; adding, removing and epsilon removal act on the front edge only; reading off path and stack leaves out exactly the epsilon edges; splitting a path of pairs gives the two component paths over the same labels; two paths compare equal exactly when all states and labels agree.",
  ["inputs", "histories"], "all sequences of operations and values (checked: 5-6 operations, arbitrary states and labels)",
  "Order reversals and off-by-one errors depend on the length of the path and where epsilon edges are; tests have a few examples.",
  [I+"AutomatonPath.h"], [("edge list with implicit end", I+"AutomatonPath.h")]),
p("P17", "Automaton membership, accepting paths and shortest paths are exact",
  "For a configuration automaton without epsilon edges, membership of a configuration is exactly the language; an accepting path is reported exactly for members and is a run of the automaton on that stack; some accepting run is found exactly when the language is not empty. With weights, the shortest accepting path for a stack and the shortest accepting path overall have minimum weight and attain it.",
  ["inputs"], "all automata, weights and queries (checked: 2 control states, 2 extra states, 3 edges, weights up to 10^6, stacks up to length 3)",
  "The searches keep back pointers and prune per state; only comparison with all runs on arbitrary automata shows a wrong pruning.",
  [I+"internal/PAutomaton.h", I+"internal/PAutomatonAlgorithms.h"], [("accepts and accept_path", I+"internal/PAutomaton.h"), ("find_path and shortest search", I+"internal/PAutomaton.h")]),
p("P18", "Refinements separate everything they were asked to separate",
  "The best refinement computed from good pairs, bad pairs and wildcards splits labels so that every good pair differs from every bad pair in the part of its first or second element, and from every wildcard in the first; the fast refinement does so for the first good pair and the first wildcard or bad pair. Combining refinements keeps every separation of each of them. Parts are disjoint, and combined parts are sorted, not empty and contain only mentioned elements.",
  ["inputs"], "all sets of pairs and all combinations (checked: up to 2 good and 2 bad pairs with 1 wildcard over 2-4 elements, 3 refinements with sides of up to 2 elements)",
  "The greedy colouring is correct only if it holds for all conflict patterns; tests check one example.",
  [I+"cegar/Refinement.h"], [("make_refinement", I+"cegar/Refinement.h"), ("Refinement::combine", I+"cegar/Refinement.h")]),
p("P19", "NFA successor queries follow exactly the matching edges",
  "Given a set of NFA states, the successor and edge queries return exactly the states reachable over one edge that matches the label, followed by epsilon edges, and the label queries return exactly the labels that lead from one set to another. Negated edges match every label outside their list.",
  ["inputs", "programs"], "all NFAs, state sets and labels (checked: up to 3 states and 3 edges with symbolic labels)",
  "The results combine negation, epsilon closure and label intersection; tests barely exercise them.",
  [I+"NFA.h"], [("successor, edge and label queries", I+"NFA.h")]),
p("P20", "Label abstraction is exact: classes, refinement and abstract automata",
  "Two labels share an abstract class exactly when the abstraction maps them to the same value, every class lists exactly its members, and encoding labels gives the sorted set of their classes. Refining a class separates two of its labels exactly when they are in different parts, leaves all other labels in their class, and makes no empty class. The abstract automaton built from an NFA and control states accepts (p, w) if and only if p is among them and w is the abstraction of some word of the NFA, also for negated and wildcard edges and after a refinement.",
  ["inputs", "histories", "programs"], "all abstractions, refinements and NFAs (checked: 3 arbitrary distinct labels, 2 abstract values, one refinement, NFAs of 1-3 construction steps, abstract words up to length 2)",
  "An abstract language that misses a word makes CEGAR answer no although the target is reachable; no test encodes a negated edge over an abstraction.",
  [I+"cegar/AbstractionMapping.h", I+"cegar/AbstractionPDA.h", I+"cegar/AbstractionPAutomaton.h", I+"cegar/Refinement.h"], [("class numbering and splitting", I+"cegar/AbstractionMapping.h"), ("encode_labels", I+"cegar/AbstractionPDA.h"), ("automaton over abstract labels", I+"cegar/AbstractionPAutomaton.h")]),
p("P21", "Disjointness tests and the priority work list are exact",
  "The disjointness test on sorted ranges answers yes exactly when the ranges share no element. The priority work list hands out a pending element of best priority at each removal, each element at most once even if it was inserted several times, and never loses or invents an element, for every interleaving of insertions and removals.",
  ["inputs", "histories"], "all sorted ranges and all operation sequences (checked: ranges up to length 4, 5 operations)",
  "Search order and early exits depend on data; tests have a few examples.",
  [I+"utils/more_algorithms.h", I+"utils/workset.h"], [("is_disjoint", I+"utils/more_algorithms.h"), ("priority set", I+"utils/workset.h")]),
p("P22", "Instances built by a factory describe exactly the given system",
  "An instance compiled by a PDA factory - from an explicit rule list or by exploring the rules of states reachable from the initial ones - together with initial and accepting states and header languages, answers reachability (and, for weighted systems, the minimum weight) exactly as the described system does: whether some initial state with a stack in the initial language reaches an accepting state with a stack in the final language. This includes initial and accepting states that occur in no rule, wildcard rules and empty headers, and it still holds after the instance is moved.",
  ["inputs", "programs", "configurations"], "all rule sets, all sets of initial and accepting states and all header languages (checked: 2-3 states, 2 labels, 1-2 rules, header languages of words of length 0 or 1)",
  "State numbering, label numbering and the automata of the headers have to agree for every combination of initial, accepting and rule states; tests run two hand-written factories.",
  [I+"PDAFactory.h", I+"SolverInstance.h", I+"PAutomatonProduct.h", I+"PDA.h"], [("compile, depth-first exploration", I+"PDAFactory.h"), ("moving an instance", I+"SolverInstance.h"), ("automata from headers", I+"PAutomaton.h")]),
p("P23", "Reading a pushdown system from JSON yields exactly the described system",
  "A JSON document describing a pushdown system - states as an array or by name, rules singly or in arrays, members in any order, wildcard labels, weights, and unknown additional members of any shape - is read into exactly that system: every state of the document, every rule with its labels, target and weight, and nothing else. A document that is not well-formed (missing, repeated or misplaced members, values of the wrong kind, weights that cannot be represented) is rejected with an error.",
  ["inputs"], "all documents (checked: 2 states, 2 labels, up to 2-3 rules in three member orders, six shapes of unknown members in two places, weights beyond the 32-bit range, 23 ways to be malformed)",
  "The reader is a hand-written state machine over token events; tests read a few sample files.",
  ["src/pdaaal-bin/parsing/PdaJsonParser.h", I+"utils/SaxHandlerHelpers.h", I+"PDA.h"], [("token handler", "src/pdaaal-bin/parsing/PdaJsonParser.h"), ("context stack and required-member flags", I+"utils/SaxHandlerHelpers.h")]),
p("P24", "What is written as JSON is read back as the same system, automaton or instance",
  "Writing a pushdown system, an automaton over its configurations, or a whole solver instance as JSON and reading the document back gives an equal system (states, rules, labels, weights), an automaton that accepts the same configurations (including epsilon edges, named and unnamed states, and automata without accepting states), and an instance of the same kind with the same answer. Malformed automaton documents are rejected with an error.",
  ["inputs", "programs"], "all systems, automata and instances with string labels (checked: 2 states, 2 labels, up to 2 rules; automata with up to 2 further states and 2-3 edges; all weight types of the reader)",
  "Writer and reader are separate code that has to agree on every shape of value; tests print documents or read fixed ones.",
  ["src/pdaaal-bin/parsing/PAutomatonJsonParser.h", "src/pdaaal-bin/parsing/SolverInstanceJsonParser.h", "src/pdaaal-bin/parsing/SaxHandlerDispatch.h", I+"PAutomaton.h", I+"PDA.h", I+"PAutomatonProduct.h"], [("writing", I+"PDA.h"), ("writing automata", I+"PAutomaton.h"), ("reading automata", "src/pdaaal-bin/parsing/PAutomatonJsonParser.h"), ("reading instances", "src/pdaaal-bin/parsing/SolverInstanceJsonParser.h")]),
p("P25", "Abstraction refinement gives the answer of the concrete system",
  "The refinement loop, started from any abstraction of labels and states and given a sound reconstruction, terminates and answers exactly whether the concrete system reaches a target configuration; when it says yes, the returned trace is a run of the concrete system from an initial header to a final header. This holds with forward, backward and bidirectional search and with both refinement strategies.",
  ["inputs", "programs", "histories"], "all systems, header languages, initial abstractions and refinement histories (checked: 3 labels in every partition, 2-4 states, 1-2 rules, headers up to length 2)",
  "How the loop behaves depends on which spurious trace is found and how it is refuted; the repository has no test of it that runs here.",
  [I+"cegar/CegarPdaFactory.h", I+"cegar/Refinement.h", I+"cegar/AbstractionMapping.h", I+"cegar/AbstractionPDA.h"], [("refinement loop, trace reconstruction, headers", I+"cegar/CegarPdaFactory.h"), ("refinements", I+"cegar/Refinement.h")]),
p("P26", "A regular expression given as text denotes exactly its words",
  "Parsing the text of a regular expression over labels - label sets and negated sets in brackets, the wildcard, grouping, * + ? directly behind an operand, concatenation, alternatives, white space and comments, and the empty text for the empty word - gives an automaton that accepts exactly the words of the expression, with the usual precedence. A text that is not such an expression is rejected with an error; no text makes the parser crash or return an automaton for something it did not read.",
  ["inputs"], "all texts and all words (checked: every text of up to 4 ASCII characters, texts of up to 7 to 10 characters over five sub-alphabets, words up to length 2)",
  "Grammar actions work on a stack and are not undone on backtracking, so every prefix of a text matters; tests parse a handful of expressions.",
  [I+"parsing/NfaParserGrammar.h", I+"parsing/NfaParser.cpp", I+"NFA.h"], [("grammar, actions and builder", I+"parsing/NfaParserGrammar.h"), ("parse", I+"parsing/NfaParser.cpp")]),
p("P27", "An automaton given as text accepts exactly the configurations it describes",
  "Parsing the text of a P-automaton - alternatives of <states, regular expression>, where states are one state or a bracketed list of states, given by number, identifier or quoted string with escapes - gives an automaton that accepts exactly the configurations described: those whose state is listed in some alternative and whose stack is a word of that alternative's expression. A malformed text, or one that names a state the system does not have in any of these forms, is rejected with an error.",
  ["inputs"], "all texts, all configurations (checked: every text of 4 ASCII characters and seven text patterns with up to 8 free characters; systems with 3 named or numbered states and 2 labels; stacks up to length 2)",
  "States, labels and the expression of each alternative pass through shared builder state; tests parse one or two texts.",
  ["src/pdaaal-bin/parsing/PAutomatonParser.h", I+"parsing/NfaParserGrammar.h", I+"PAutomaton.h"], [("grammar, builder and state lookup", "src/pdaaal-bin/parsing/PAutomatonParser.h"), ("automaton from NFA, or_extend", I+"PAutomaton.h")]),
p("P28", "The verifier of the tool reports the instance's answer, weight and trace",
  "For every engine (post*, pre*, dual) and every trace type the tool offers, the verifier reports as result exactly whether a target configuration is reachable from an initial one, a trace exactly when one was asked for and exists, which is a run from an initial to a target configuration, and for weighted trace types the optimal weight of all runs - or that it is unbounded - which is also the weight of the trace. Without an engine nothing is reported; an engine that does not exist is an error. What is printed is one JSON document with exactly the members that were written.",
  ["inputs", "programs", "configurations"], "all instances, engines and trace types (checked: 2 states, 2 labels, up to 2 rules, stacks up to 2 symbols, weights within 1000 of zero; sequences of 4 output calls)",
  "Every combination of engine, trace type and kind of weight is dispatched separately; no test that runs here goes through the verifier.",
  ["src/pdaaal-bin/Verifier.h", "src/pdaaal-bin/utils/json_stream.h", I+"Solver.h"], [("dispatch and report", "src/pdaaal-bin/Verifier.h"), ("output", "src/pdaaal-bin/utils/json_stream.h"), ("solvers", I+"Solver.h")]),
]
NA = []
LEVEL_NOTE = "bounded: every input within the bounds listed in the evidence file is decided by the solver on the LLVM IR of the current tree; counterexamples are replayed natively before they are reported; nothing is claimed outside the bounds"
TECH = "symbolic execution of the compiled LLVM IR (symx) with an SMT solver (z3) deciding branches and assertions, native replay of counterexamples"
