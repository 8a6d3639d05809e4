"""which contracts and which bounded harness decide each property"""

TRUSTED = [
    "clang 18 front end (AST of the real sources) and the extractor engine/cxxdump.cc",
    "the verification-condition generator engine/*.py and its models of libstdc++/boost/Eigen library calls (listed under library_models)",
    "z3 5.3.2, cvc5 1.1.2",
    "double arithmetic treated as exact real arithmetic extended with -inf/inf/NaN (no rounding)",
    "std::size_t/int index arithmetic treated as mathematical integers with range obligations only where listed as safety obligations",
    "memory exhaustion and termination are not covered",
]

PROPS = {
    "C01": dict(
        technique="contracts on the real functions, deductive VC generation from the clang AST, discharged by z3/cvc5",
        level_note="every listed function proved against its contract for all inputs; assumes exact real arithmetic for double, the library models and the VC generator",
        level="proof", specs=[("lib", "constraint")], native="c01",
        native_what="ConstraintMaker, satisfy, operator(), toBool, widen on a grid of operators, constants and values",
        native_rule="grid over clock, operator, constant, value; random guards for widen; every case is a distinct (clock, operator, constant, value) or guard"),
    "C02": dict(
        technique="contracts on the real functions, deductive VC generation from the clang AST, discharged by z3/cvc5; plus(vector) bounded",
        level_note="all functions of interval.hh proved for all inputs except plus(vector) (bounded stand-in); two recorded findings about Interval::plus; assumes exact real arithmetic, library models, VC generator",
        level="proof", specs=[("lib", "interval")], native="c02",
        native_what="free function plus(vector) is only checked here (not under contract): random lists of up to 3 integer intervals, membership on a quarter grid below 14; all other functions re-checked on grids",
        native_rule="all intervals with ends in 0..3 or infinite for pairs, random lists of up to 4 intervals; a case is non-trivial if the operands are non-empty and new"),
    "C03": dict(
        technique="contracts on the real functions (ghost valuations, closedness invariants), deductive VC generation from the clang AST, discharged by z3/cvc5; DBM lemmas in Lean 4",
        level_note="every zone operation, makeGuard included, proved for matrices of every size up to 256 and all bounds (makeGuard: whole bounds and a natural abstraction constant, non-empty zones); assumes exact real arithmetic, library (Eigen) models, VC generator, and that the Lean statement of the lemmas matches the SMT vocabulary",
        level="proof", specs=[("lib", "zone")], native="c03",
        lemmas=[("Dbm.lean", ["Dbm.extend", "Dbm.extend_above", "Dbm.nonempty"])],
        trusted=["Lean 4.33 kernel and Mathlib for lemmas/Dbm.lean; its vocabulary (sat, ble, badd, closed) restates le_ub, ble, badd, closed of specs/zone.py by hand"],
        native_what="all operations re-checked on random matrices of up to 6 rows with integer bounds in -4..6 against an integer-coded reference closure",
        native_rule="random matrices with 2..6 rows; a case is non-trivial if the zone is non-empty and the (operation, matrix) is new"),
    "C04": dict(
        technique="contracts on the real functions (ghost match start and end), deductive VC generation from the clang AST, discharged by z3/cvc5; two DBM lemmas in Lean 4",
        level_note="every member function of IntermediateZone proved for all bounds, both representations, matrices of every size up to 256; alloc assumes the new clock's upper bound is not weaker than the newest one's (monotone timestamps); assumes exact real arithmetic, library (Eigen, boost::variant) models, VC generator",
        level="proof", specs=[("lib", "izone")], native="c04",
        lemmas=[("Dbm.lean", ["Dbm.extend", "Dbm.extend_above", "Dbm.nonempty"])],
        trusted=["Lean 4.33 kernel and Mathlib for lemmas/Dbm.lean; its vocabulary restates specs/zone.py by hand"],
        native_what="random sequences of alloc/tighten/update/toAns along monotone words, against a list of the added constraints closed by a reference closure",
        native_rule="random operation sequences; a case is non-trivial if it is new and contains an allocation"),
    "C05": dict(
        technique="contracts on the bound helpers of the matching loops, deductive VC generation discharged by z3/cvc5; the matching procedures themselves are checked by a bounded stand-in (differential run of the real code against direct simulation)",
        level_note="proved: isValidConstraint, updateConstraint for all inputs (with C01-C04, C07 and C13 for the parts they build on); monaa, monaaDollar, monaaNotNecessaryDollar are bounded only: random patterns and words, every (t,t') on a grid that meets every region; one recorded finding",
        level="exploration", specs=[("lib", "match")], native="c05",
        native_files=["libmonaa/intersection.cc", "libmonaa/ta2za.cc"], native_opt="-O2", budget={"quick": 25, "thorough": 600},
        native_what="monaa, monaaDollar, monaaNotNecessaryDollar on the three containers (vector, lazy text, lazy binary): random automata of up to 6 states and 2 clocks ending in $ (or a letter for monaa), words of up to 7 events with integer times, every (t,t') on a grid of three points per unit against direct simulation",
        native_rule="a case is a (pattern, word, container); non-trivial if the word is not empty, the container is the vector one and the case is new"),
    "C06": dict(
        technique="contracts on the real functions (ghost accepting run of the zone automaton), deductive VC generation from the clang AST, discharged by z3/cvc5; the construction of the KMP table by a bounded stand-in",
        level_note="proved for all patterns: the constructor of Sunday's table (shortest length is a lower bound, no shift beyond an occurrence, end letters), assuming that accepted words have runs in the zone automaton after dead states are removed (C10), and the accessors of both tables; bounded: the constructor of the KMP table: random patterns, soundness of every shift against a direct search for accepted words",
        level="exploration", specs=[("lib", "skip"), ("lib", "sunday")], native="c06",
        native_files=["libmonaa/intersection.cc", "libmonaa/ta2za.cc"], native_opt="-O2", budget={"quick": 25, "thorough": 600},
        trusted=["an accepted word has a run in the zone automaton that ta2za and removeDeadStates leave (C10), of less than 2^31 letters", "epsilonClosure contains every unobservably reachable state (from its contract in C10, by induction)"],
        native_what="SundaySkipValue and KMPSkipValue of random automata of up to 6 states and 2 clocks: the shortest length, the letters at the shortest length, the letter shifts and the per-state shifts against direct enumeration of short accepting runs (difference constraints) and of overlapping pairs of runs",
        native_rule="a case is a pattern; non-trivial if it is new"),
    "C07": dict(
        technique="contracts on the real functions (ghost input stream), deductive VC generation from the clang AST, discharged by z3/cvc5",
        level_note="every member function of LazyDeque, WordContainer, the vector containers and the answer containers, and both record readers, proved for all streams and all call sequences (class invariant); fread/fscanf themselves are assumed contracts over streams of well-formed records",
        level="proof", specs=[("lib", "lazy")], native="c07",
        trusted=["contracts of fread and fscanf(\" %c %lf\") over a stream of well-formed records"],
        native_what="the same containers over real files in a scratch folder: random interleavings of fetch, access, size and discard, text and binary",
        native_rule="random histories; a case is non-trivial if it reads at least one record and is new"),
    "C08": dict(
        technique="contracts on the real functions (ghost run, least reachable-configuration predicate, ghost transition), deductive VC generation from the clang AST, discharged by z3/cvc5",
        level_note="deepCopy and isMember proved for all automata and words (heap of states, any size); assumes distinct states, transitions to states of the automaton or nowhere, clocks below clockSize(), exact real arithmetic, library models, VC generator",
        level="proof", specs=[("lib", "ta")], native="c08",
        native_what="deepCopy and isMember on random automata of up to 6 states, 3 clocks, with loops, parallel edges and edges without target; words of up to 6 events on a quarter grid",
        native_rule="a case is an automaton (deepCopy) or an automaton and a word (isMember); non-trivial if new and, for isMember, some run reads the whole word"),
    "C09": dict(
        technique="contract on the real product construction (ghost pair of states, ghost letter and transitions), deductive VC generation from the clang AST, discharged by z3/cvc5; language equality of the specified product in Lean 4; intersectionSignalTA bounded",
        level_note="intersectionTA proved for all automata: one product state per pair of states with equal zero-duration flags, initial and accepting exactly if both are, transitions exactly the joint and the one-sided unobservable ones with concatenated resets and guards on disjoint clocks; that such a product accepts exactly the intersection (asynchronous unobservable steps included) is a lemma proved in Lean; updateInitAccepting proved (initial pairs and acceptance recomputed, everything else untouched); intersectionSignalTA is bounded",
        level="proof", specs=[("lib", "product")], lemmas=[("Product.lean", ["Product.language"])],
        trusted=["Lean 4.33 kernel and Mathlib for lemmas/Product.lean; its definition of the product restates the postconditions of specs/product.py by hand (operands with equal zero-duration flags)"], native="c09", native_files=["libmonaa/intersection.cc"],
        native_what="intersectionTA, intersectionSignalTA (one letter per state, accepting states without successors) and updateInitAccepting on random automata of up to 4 states and 2 clocks each, also an automaton with itself; words of up to 5 moves",
        native_rule="a case is a pair of automata; non-trivial if both have transitions and the pair is new"),
    "C10": dict(
        technique="contracts on the real functions (ghost zone-graph state, transition and valuation), deductive VC generation from the clang AST, discharged by z3/cvc5; Lean 4 lemmas for path induction and graph reachability; the soundness direction of ta2za by a bounded stand-in",
        level_note="proved: ta2za's completeness direction (every initial configuration represented, every move of a represented configuration has a successor that represents where it leads, hence every run labels a path) and the shape of the graph; removeDeadStates, empty, epsilonClosure, updateInitAccepting for all graphs. Bounded only: ta2za adds no infeasible path (soundness of extrapolation), checked against exact feasibility of every path up to 5 letters; one recorded finding. Assumes weak_ptr targets alive, exact real arithmetic, library models, VC generator; termination not covered",
        level="exploration", specs=[("lib", "zgraph"), ("lib", "zdead"), ("lib", "za")], native="c10",
        lemmas=[("Graph.lean", ["Graph.least_closed", "Graph.live", "Graph.empty_true", "Graph.empty_false", "Graph.simulates"])],
        trusted=["Lean 4.33 kernel and Mathlib for lemmas/Graph.lean; its hypotheses restate the postconditions of specs/zgraph.py, zdead.py and za.py by hand",
                 "ta2za uses the contracts of the zone operations that check C03 discharges (run C03 as well)"],
        native_files=["libmonaa/ta2za.cc"], native_opt="-O2",
        native_what="ta2za on random automata of up to 5 states and 3 clocks with epsilon transitions, from the all-zero valuation or a given zone, also extended from other initial states; removeDeadStates, empty, epsilonClosure, updateInitAccepting on random graphs of up to 9 vertices with loops and edges to deleted vertices",
        native_rule="a case is an automaton or a graph; non-trivial if new"),
    "C11": dict(
        technique="contracts on the real functions, deductive VC generation discharged by z3/cvc5; bounded stand-in for what is not under contract",
        level_note="proved for all automata: concat2 (which transitions are copied where, flags, initial states, constants) and removeStuckStates (exactly the stuck states and the transitions into them go); intersectionTA is proved under C09; bounded: toEventTA as a whole, a differential run of the real code: acceptance by the automaton against the language of the expression computed by splitting the word",
        level="exploration", specs=[("evta", "evta")], native="c11", native_files=["libmonaa/intersection.cc", "monaa/tre.cc", "monaa/intermediate_tre.cc"],
        native_what="TRE::toEventTA on random expressions of depth up to 5 (letters, $, concatenation, |, &, +, *, open, closed and unbounded time restrictions with constants up to 4), sampled and random words on a half grid, the empty word, varied heap layouts",
        native_rule="a case is an expression; non-trivial if new"),
    "C12": dict(
        technique="contracts on the real functions, deductive VC generation discharged by z3/cvc5; bounded stand-in for what is not under contract",
        level_note="proved for every graph: convBoostTA (states, flags, initial states in order, transitions in order with target, guard, resets; counted clocks and constants); bounded: the text reader parseBoostTA (boost::spirit), the list readers and the writer, on random automata written in many layouts and read back",
        level="exploration", specs=[("dot", "dot")], native="c12", native_libs=["-lboost_graph"],
        trusted=["boost::adjacency_list: vertices are 0..n-1, out_edges lists the edges of a vertex in the order of insertion, targets are vertices"],
        native_what="parseBoostTA and convBoostTA on descriptions of up to 14 states, 12 clocks, 28 transitions, guards of up to 6 constraints: order of statements and attributes, separators, quotes, default attributes, left-out attributes, comments, transitions before states",
        native_rule="a case is a description; non-trivial if new"),
    "C13": dict(
        technique="contracts on the real functions (ghost output token sequence), deductive VC generation from the clang AST, discharged by z3/cvc5",
        level_note="the printing container proved for all zones: which text literals and which numbers are printed in which order; printf's rendering of one number is assumed (it prints six decimals)",
        level="proof", specs=[("lib", "answers")], native="c13",
        trusted=["printf prints its literal text and renders one double per %lf conversion, in order"],
        native_what="the printed text itself, captured and parsed back, for random zones including signs, strictness and infinities; quiet mode",
        native_rule="random zones; non-trivial if new"),
}

NA = {
    "C14": "the deciding code is generated by bison and flex (table-driven C skeletons with computed goto tables); the VC generator cannot bring the generated scanner and parser within reach and a grammar is not a function with a contract",
    "C15": "no contract within reach: the signal semantics of the expressions is not written down in the repository, DNFTRE::toNormalForm rewrites shared mutable syntax trees through std::list iterators, and its termination itself is open; stating its postcondition would be inventing the semantics",
    "C16": "main is boost::program_options and process plumbing (external library state, exit codes); nothing of it is a function over a state the verifier can describe",
}
