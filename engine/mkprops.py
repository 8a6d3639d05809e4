import json
P=[]
def p(id,title,st,over,qt,why,files,mech,state=[],obs=[]):
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=qt),why_tests_cant=why,anchors=dict(files=files,state=state,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=obs,hook_needed=None)))
L="libmonaa/"
p("C01","Guards mean exactly their textbook comparison",
 "A guard x<c, x<=c, x>=c or x>c, built through the library's constraint builder, holds at a clock value exactly when that comparison does, and its three-way comparison says 'too large' only for failed upper bounds and 'too small' only for failed lower bounds. Widening a guard removes exactly its lower bounds and keeps every upper bound.",
 ["inputs"],"all operators, all int constants, all clock values and valuations, all guards of any length",
 "constraint_test samples a few constants; a wrong boundary (< against <=) at an unsampled operator passes.",
 [L+"constraint.hh"],[("Constraint::satisfy / operator()",L+"constraint.hh"),("ConstraintMaker",L+"constraint.hh"),("widen",L+"constraint.hh")],obs=["Constraint::satisfy","Constraint::operator()","widen"])
p("C02","Interval algebra is exact set algebra on the reals",
 "Intersection, Minkowski sum and Kleene plus of intervals and of finite lists of intervals (each list denoting the union of its members) contain a real number exactly when the set-theoretic operation does, with open and closed ends handled exactly. Only the designated operand is changed.",
 ["inputs"],"all intervals with non-negative integer or infinite ends, open or closed, all lists of them, all real points",
 "interval_test checks a dozen concrete intervals, mostly open ones; ties between ends and mixed open/closed ends are not sampled.",
 [L+"interval.hh"],[("operator&&, land",L+"interval.hh"),("operator+, operator+=",L+"interval.hh"),("Interval::plus, plus",L+"interval.hh")],obs=["the resulting interval list"])
p("C03","Zone operations compute exactly the intended set of clock valuations",
 "For every difference-bound matrix, tightening adds exactly the given constraint, canonicalisation keeps the denoted set of valuations and makes every bound the tightest one, the emptiness test answers exactly whether the set is empty, and intersection keeps exactly the common valuations. On a canonical matrix, resetting a clock yields exactly the valuations obtained by setting that clock to zero, and time elapse exactly those reached by a positive delay. Extrapolation only enlarges the set, extracting a sub-range of clocks keeps exactly the bounds among them, and the guard read off a zone holds throughout it.",
 ["inputs"],"all dimensions, all matrices with finite or infinite, strict or non-strict entries, all clocks, all real valuations",
 "zone_test looks at a few fixed 2- or 3-clock matrices; strictness and closure errors at other entries or dimensions stay unseen.",
 [L+"zone.hh"],[("Zone::tighten, close1, canonize",L+"zone.hh"),("Zone::isSatisfiable",L+"zone.hh"),("Zone::reset, elapse, abstractize, cutVars, makeGuard, intersectionAssign",L+"zone.hh")],
 [dict(name="value",meaning="DBM: value(i,j) bounds x_i - x_j, index 0 is the constant 0",where=L+"zone.hh")],["Zone::value"])
p("C04","Match zones built along a word are exact in both representations",
 "The zone over match start t and match end t' that the matcher maintains, whether held as three intervals or as a matrix, denotes after every allocation, tightening and clean-up exactly the set of (t,t') satisfying all constraints added so far. Its emptiness test is exact and the reported answer zone carries exactly the bounds on t, t' and t'-t.",
 ["inputs","histories"],"all sequences of allocate/tighten/update operations along monotone timed words, all bounds, strict or not",
 "intermediate_zone_test runs a handful of fixed sequences; derived bounds for other constraint pairs and the conversion from intervals to a matrix are sampled once.",
 [L+"intermediate_zone.hh"],[("IntermediateZone::tighten",L+"intermediate_zone.hh"),("IntermediateZone::alloc",L+"intermediate_zone.hh"),("IntermediateZone::toAns, isSatisfiableCanonized, update",L+"intermediate_zone.hh")],
 [dict(name="intervals",meaning="cells for t, t', t'-t",where=L+"intermediate_zone.hh"),dict(name="value",meaning="DBM over t, ..., t'",where=L+"intermediate_zone.hh")],["the answer zone"])
p("C05","Reported matches are exactly the matches of the pattern",
 "For every timed automaton whose accepting runs end with the terminator $ and every timed word with strictly increasing timestamps, a pair (t,t') lies in some reported zone if and only if the word restricted to (t,t'), time-shifted by t and ended by $ at t', is accepted by the automaton. This holds for each matching procedure the library offers, and answers do not depend on when the input becomes available.",
 ["inputs","programs"],"all timed automata with integer guards ending in $, all finite timed words with strictly increasing timestamps, all pairs (t,t')",
 "timedFJS_test and the integrated tests count zones for a few automata and logs; that the union of zones equals the match set is never checked.",
 [L+"monaa.hh",L+"intermediate_zone.hh",L+"kmp_skip_value.hh",L+"sunday_skip_value.hh"],[("monaa",L+"monaa.hh"),("monaaDollar",L+"monaa.hh"),("monaaNotNecessaryDollar",L+"monaa.hh")],obs=["the zones pushed into the answer container"])
p("C06","Skipping never jumps over a match",
 "Every shift applied to the matching start position, derived from the pattern's length or letters or from the set of states reached so far, is positive and is at most the distance to the next start position at which some match begins. The shortest-word length used for it is a true lower bound on the length of accepted words.",
 ["inputs","programs"],"all timed automata, all timed words, all start positions and reached state sets",
 "sunday_skip_value_test and kmp_skip_value_test fix the tables of two automata; soundness over other automata is not examined.",
 [L+"kmp_skip_value.hh",L+"sunday_skip_value.hh"],[("KMPSkipValue",L+"kmp_skip_value.hh"),("SundaySkipValue",L+"sunday_skip_value.hh")],obs=["KMPSkipValue::at","SundaySkipValue::at and the shortest length"])
p("C07","The word container presents the input stream faithfully",
 "For a stream of well-formed records, whatever the order and positions in which a container over a text or binary stream is read and its prefix is discarded, the event at position n equals the n-th record of the stream, a position is reported out of range exactly when the stream ends before it, and discarding positions below n never loses or alters an event at or above n. The answer containers keep exactly what was pushed, in order.",
 ["inputs","histories"],"all streams, all interleavings of fetch, access, size and discard",
 "lazy_deque_test and word_container_test read one short file front to back.",
 [L+"lazy_deque.hh",L+"word_container.hh",L+"ans_vec.hh"],[("LazyDeque",L+"lazy_deque.hh"),("WordContainer",L+"word_container.hh"),("AnsVec, PrintContainer",L+"ans_vec.hh")],
 [dict(name="N, front",meaning="stream prefix read so far and first retained position",where=L+"lazy_deque.hh")],["operator[], at, fetch, size, setFront"])
p("C08","Copying and running a timed automaton respect its definition",
 "A deep copy has the same states, initial and accepting flags, transitions, guards and resets as the original, shares no state with it, and is not affected by later changes to it. Membership of a timed word is answered exactly as the existence of an accepting run that respects letters, guards, clock resets and timestamps.",
 ["inputs","programs"],"all finite timed automata (including cyclic, with self-loops and shared targets), all timed words",
 "timed_automaton_test copies one automaton and asks membership of a few words.",
 [L+"timed_automaton.hh"],[("TimedAutomaton::deepCopy",L+"timed_automaton.hh"),("TimedAutomaton::isMember",L+"timed_automaton.hh")],obs=["the copied automaton","isMember"])
p("C09","The product automaton accepts exactly the intersection",
 "The product of two timed automata accepts a timed word if and only if both operands accept it, with the clocks of the operands kept disjoint. The signal-flavoured product does the same for automata over signals, where the letter of a segment belongs to the state and accepting states have no successors.",
 ["inputs","programs"],"all pairs of timed automata (also an automaton with itself), with and without unobservable transitions; all timed words",
 "intersection_test inspects two fixed pairs of automata.",
 [L+"intersection.cc",L+"intersection.hh"],[("intersectionTA",L+"intersection.cc"),("intersectionSignalTA",L+"intersection.cc")],obs=["the product automaton"])
p("C10","The zone graph is a sound and complete reachability abstraction",
 "The zone graph of a timed automaton has a path from an initial to an accepting vertex labelled by a letter sequence if and only if the automaton has an accepting run over some timed word with these letters and strictly increasing, positive timestamps. Pruning and clean-up of the graph keep its language, and the emptiness answer is right.",
 ["inputs","programs"],"all timed automata with integer guards, all letter sequences",
 "ta2za_test and zone_automaton_test build the graph of a few automata and count vertices.",
 [L+"ta2za.cc",L+"zone_automaton.hh"],[("ta2za",L+"ta2za.cc"),("ZoneAutomaton::removeDeadStates, epsilonClosure, updateInitAccepting, empty",L+"zone_automaton.hh")],obs=["the zone automaton"])
p("C11","A timed regular expression and its automaton have the same language",
 "For every timed regular expression built from letters, $, concatenation, union, intersection, repetition and integer-bounded time restriction, the timed automaton produced accepts a timed word if and only if the word is in the language of the expression.",
 ["inputs","programs"],"all expressions of the supported syntax, all timed words",
 "tre_test checks sizes of automata for some fixed expressions and never the language on sampled words.",
 ["monaa/tre.cc","monaa/tre.hh","monaa/intermediate_tre.cc"],[("TRE::toEventTA","monaa/tre.cc")],obs=["the automaton given to the matcher"])
p("C12","Reading an automaton from DOT reproduces the described automaton",
 "For every well-formed DOT description, the automaton has exactly the described states with their initial and accepting flags and exactly the described transitions with their letters, resets and guards, in every layout of attributes; a state without an init or match attribute is not initial or accepting, and the description the tools print reads back as the same automaton. Every clock that is used is counted, and the largest constants recorded per clock cover every guard on that clock.",
 ["inputs"],"all well-formed descriptions: any number of states, clocks and transitions, guards of any length",
 "timed_automaton_parser_test reads two fixed files.",
 ["monaa/timed_automaton_parser.hh"],[("convBoostTA","monaa/timed_automaton_parser.hh"),("constraint and reset list readers","monaa/timed_automaton_parser.hh")],obs=["TimedAutomaton"])
p("C13","Printed and collected answers state the zone that was found",
 "The printed text for a match zone states its bounds on t, t' and t'-t, each with its value to the printed number of decimals and its strictness and sign, one block per reported zone and in order of reporting; quiet mode prints nothing and does not change what is found.",
 ["inputs"],"all answer zones, all sequences of answers",
 "ans_vec_test pushes a few zones; the integrated test only counts output lines.",
 [L+"ans_vec.hh"],[("PrintContainer::push_back",L+"ans_vec.hh")],obs=["standard output"])
p("C14","The expression parser builds the expression that was written",
 "Parsing a timed regular expression yields the syntax tree determined by the documented precedence and associativity, with the documented meaning of every time-restriction bracket, and rejects text outside the grammar.",
 ["inputs"],"all texts",
 "tre_driver_test parses a few expressions.",
 ["monaa/tre_parser.yy","monaa/tre_lexer.l"],[("bison grammar","monaa/tre_parser.yy")],obs=["the parsed expression"])
p("C15","Signal-mode translation preserves the signal language",
 "For every expression in signal mode, the automaton obtained through normalisation accepts a signal if and only if the signal is in the expression's language.",
 ["inputs","programs"],"all expressions, all signals",
 "intermediate_tre_test compares a few normal forms syntactically.",
 ["monaa/intermediate_tre.cc","monaa/tre.cc"],[("DNFTRE, toSignalTA","monaa/intermediate_tre.cc")],obs=["the automaton given to the matcher"])
p("C16","Command-line options select input, pattern and mode as documented",
 "The tool reads the pattern from the expression or the file given, the word from the given file or standard input, in the requested encoding, and reports errors with a non-zero status.",
 ["configurations","inputs"],"all option combinations and files",
 "integrated_test runs three fixed command lines.",
 ["monaa/main.cc","monaa/tre2ta.cc"],[("main","monaa/main.cc")],obs=["process exit status and output"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
