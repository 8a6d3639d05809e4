// extraction unit: every library header and source of libmonaa, nothing else
#include "monaa.hh"
#include "interval.hh"
#include "zone_automaton.hh"
#include "intersection.cc"
#include "ta2za.cc"
template void monaa<LazyDeque, PrintContainer>(WordContainer<LazyDeque>, TimedAutomaton, AnsContainer<PrintContainer>&);
template void monaaDollar<LazyDeque, PrintContainer>(WordContainer<LazyDeque>, TimedAutomaton, AnsContainer<PrintContainer>&);
template void monaaNotNecessaryDollar<LazyDeque, PrintContainer>(WordContainer<LazyDeque>, TimedAutomaton, AnsContainer<PrintContainer>&);
// makes the members of the container templates known to the extractor
void instantiate_members() {
  WordContainer<LazyDeque> l(nullptr);
  l[0], l.at(0), l.size(), l.setFront(0), l.fetch(0);
  WordVector<std::pair<Alphabet, double>> v(nullptr);
  v[0], v.at(0), v.size(), v.setFront(0), v.fetch(0);
  AnsContainer<PrintContainer> p{PrintContainer(true)};
  p.size(), p.reserve(0), p.clear(), p.push_back(Zone());
  AnsVec<Zone> a;
  a.size(), a.reserve(0), a.clear(), a.push_back(Zone()), a.begin(), a.end();
  AnsNum<Zone> n;
  n.size(), n.reserve(0), n.clear(), n.push_back(Zone());
}
