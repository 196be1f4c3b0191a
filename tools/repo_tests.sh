#!/bin/bash
# development helper: builds and runs those of the repository's own tests that need ptrie, with the ptrie stand-in
O=/tmp/w/rt; mkdir -p $O; V=$(cd "$(dirname "$0")/.." && pwd)
for t in PAutomaton_test PDA_test PDAFactory_test PAutomatonFixedPoint_test Solver_test Verification_test Reducer_test SolverInstance_test CegarPdaFactory_test PdaJsonParser_test PAutomatonParser_test ParserTest PAutomatonJsonParser_test SolverInstanceJsonParser_test Parsing_test AbstractionPDA_test Refinement_test; do
 f=/repo/test/$t.cpp; [ -f $f ] || continue
 ( g++ -std=gnu++20 -O1 -w -DBOOST_TEST_DYN_LINK -I$V/stubs/common -I/repo/src/include -I/repo/src/pdaaal-bin $f /repo/src/include/pdaaal/internal/PDA.cpp /repo/src/include/pdaaal/internal/Reducer.cpp -o $O/$t -lboost_unit_test_framework -labsl_hash -labsl_city -labsl_low_level_hash -labsl_raw_hash_set > $O/$t.log 2>&1 && (cd /repo/test && timeout 120 $O/$t 2>&1 | tail -4 | cut -c1-300 | sed "s/^/$t: /") || echo "$t: $(grep -m1 error $O/$t.log | cut -c1-200)" ) &
done; wait; rm -rf $O
