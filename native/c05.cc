// bounded check of the matching procedures: every (t,t') on a grid that meets every region, against direct simulation of the pattern
#include "common.hh"
#include "pat.hh"

using Word = std::vector<std::pair<char, long>>; // times in units, integers
static const long S = 3;                           // grid points per unit

static std::string show(const Word &w) {
  std::string s = " word";
  for (auto &e : w)
    s += std::string(" ") + e.first + std::to_string(e.second);
  return s;
}
static bool in(const Zone &z, long t, long u) { // scaled
  auto le = [](long d, const Bounds &b) { return b.second ? d <= b.first * S : d < b.first * S; };
  return le(-t, z.value(0, 1)) && le(t, z.value(1, 0)) && le(-u, z.value(0, 2)) && le(u, z.value(2, 0)) && le(t - u, z.value(1, 2)) && le(u - t, z.value(2, 1));
}
static FILE *file(const Word &w, bool binary) {
  FILE *f = tmpfile();
  for (auto &e : w)
    if (binary) {
      double d = e.second;
      fwrite(&e.first, 1, 1, f);
      fwrite(&d, sizeof d, 1, f);
    } else
      fprintf(f, "%c %ld\n", e.first, e.second);
  rewind(f);
  return f;
}
static Word word() {
  Word w;
  long t = nv::rnd(0, 2);
  int len = nv::rnd(0, 7);
  const char *abc = nv::coin(3) ? "abc" : nv::coin() ? "aab" : "ab";
  for (int i = 0; i < len; i++) {
    w.push_back({abc[nv::rnd(0, strlen(abc) - 1)], t});
    t += nv::coin(3) ? nv::rnd(1, 5) : 1;
  }
  return w;
}
int main(int argc, char **argv) {
  nv::init(argc, argv);
  nv::parallel(7);
  const int N = nv::thorough ? 30000 : 1500;
  long covered = 0;
  for (int n = 0; n < N && !nv::timeUp(); n++) {
    const bool first = n == 0; // a fixed pattern that shows the recorded finding
    const int mode = first ? 0 : nv::coin(2) ? 0 : nv::rnd(1, 2);
    const bool dollar = mode == 0 || (mode == 2 && nv::coin());
    ta::A a = pattern(dollar);
    if (first) {
      a = ta::A();
      a.n = 4, a.k = 1;
      a.init = {true, false, false, false}, a.match = {false, false, false, true};
      a.e = {{0, 1, 'a', {}, {}}, {1, 2, 'a', {}, {}}, {0, 3, '$', {}, {}}, {2, 3, '$', {}, {}}};
    }
    if (!first && mode == 2 && nv::coin()) // mixed: some states accept at their event
      a.match[nv::rnd(1, a.n - 1)] = true;
    const bool event = mode == 2; // accepting states reached by an event count as matches ending there
    // the library refuses (documented exit) patterns whose bounded search finds no event: leave those out
    const int shortest = Feas(a, dollar).shortest();
    if (shortest > 5)
      continue;
    TimedAutomaton TA = ta::build(a);
    if (!quick(TA, mode, nv::coin(4) ? 300 : 60))
      continue;
    for (int rep = 0; rep < 3; rep++) {
      Word w = word();
      if (first)
        w = {{'a', 0}, {'b', 2}};
      nv::group = mode == 0 ? "monaaDollar" : mode == 1 ? "monaa" : "monaaNotNecessaryDollar";
      std::vector<std::vector<Zone>> res;
      for (int how = 0; how < 3; how++) {
        nv::begin((how == 0 ? "vector " : how == 1 ? "text stream " : "binary stream ") + ta::show(a) + show(w), how == 0 && !w.empty());
        FILE *f = file(w, how == 2);
        AnsVec<Zone> ans;
        if (how == 0) {
          WordVector<std::pair<Alphabet, double>> c(f, false);
          match(mode, c, TA, ans);
        } else {
          WordLazyDeque c(f, how == 2);
          match(mode, c, TA, ans);
        }
        fclose(f);
        res.emplace_back(ans.begin(), ans.end());
      }
      bool same = true;
      for (int how = 1; how < 3; how++) {
        same = same && res[how].size() == res[0].size();
        for (size_t i = 0; same && i < res[0].size(); i++)
          same = res[how][i].value == res[0][i].value;
      }
      nv::check(same, "stream", "the answers depend on the input container");
      // oracle
      long last = w.empty() ? 0 : w.back().second;
      for (long t = 0; t < last * S; t++) {
        size_t i = 0;
        while (i < w.size() && w[i].second * S <= t)
          i++;
        auto cs = ta::start(a, t);
        size_t j = i;
        const long top = (last + (mode != 1 ? 8 : 0)) * S;
        for (long u = t + 1; u <= top; u++) {
          while (j < w.size() && w[j].second * S < u) {
            cs = ta::step(a, cs, w[j].first, w[j].second * S, S);
            j++;
          }
          bool want = false;
          if (mode != 1 || j < w.size())
            for (auto &c : ta::step(a, cs, mode != 1 ? '$' : w[j].first, u, S))
              want = want || a.match[c.first];
          if (event && j < w.size() && w[j].second * S == u)
            for (auto &c : ta::step(a, cs, w[j].first, u, S))
              want = want || a.match[c.first];
          bool got = false;
          for (auto &z : res[0])
            got = got || in(z, t, u);
          covered += want;
          if (got != want) {
            auto rat = [](long x) { return std::to_string(x) + "/3"; };
            // the recorded finding: a segment without events is skipped when the pattern also has longer matches, or after the last event
            bool emptySeg = want && i == j && dollar && (i >= w.size() || shortest > 1);
            nv::check(false, got ? "reported non-match" : (emptySeg ? "missed empty segment" : "missed match"), "t=" + rat(t) + " t'=" + rat(u) + (got ? " is in a reported zone but is no match" : " is a match but in no reported zone"));
            t = last * S;
            break;
          }
        }
      }
    }
  }
  if (nv::fails.empty() && nv::cases > 1500 && covered < 1000)
    nv::fail("oracle", "the oracle found almost no matches");
  printf("matches %ld\n", covered);
  return nv::done();
}
