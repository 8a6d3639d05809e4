// extraction unit: reading of automata in the DOT format
#include "timed_automaton_parser.hh"
void instantiate_members() {
  BoostTimedAutomaton g;
  TimedAutomaton ta;
  convBoostTA(g, ta);
}
