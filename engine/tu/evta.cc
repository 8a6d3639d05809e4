// extraction unit: automata of timed regular expressions
#include "tre.cc"
