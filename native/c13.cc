// bounded check of the printed answers: text captured and read back
#include "common.hh"
#include "ans_vec.hh"

static FILE *cap = nullptr;
static int saved = -1;
static void on() {
  fflush(stdout);
  cap = tmpfile();
  saved = dup(1);
  dup2(fileno(cap), 1);
}
static std::string off() {
  fflush(stdout);
  std::cout.flush();
  dup2(saved, 1);
  close(saved);
  rewind(cap);
  std::string s;
  int c;
  while ((c = fgetc(cap)) != EOF)
    s += char(c);
  fclose(cap);
  return s;
}
static double num() {
  switch (nv::rnd(0, 4)) {
  case 0: return nv::rnd(-9, 9);
  case 1: return nv::rnd(-4000, 4000) / 16.0;
  case 2: return nv::rnd(-100000000, 100000000) / 1000.0;
  case 3: return nv::rnd(-9, 9) * 1e9 + nv::rnd(0, 63) / 64.0;
  default: return nv::coin(3) ? std::numeric_limits<double>::infinity() : 0;
  }
}
int main(int argc, char **argv) {
  nv::init(argc, argv);
  const int N = nv::thorough ? 100000 : 6000;
  for (int it = 0; it < N && !nv::timeUp(); it++) {
    const bool quiet = nv::coin(6);
    nv::group = quiet ? "quiet" : "printed";
    int k = nv::rnd(1, 4);
    std::vector<Zone> zs;
    std::string d;
    for (int i = 0; i < k; i++) {
      Zone z = Zone::zero(3);
      for (int a = 0; a < 3; a++)
        for (int b = 0; b < 3; b++)
          if (a != b) {
            z.value(a, b) = {num(), nv::coin()};
            d += " (" + std::to_string(a) + "," + std::to_string(b) + ")" + (z.value(a, b).second ? "<=" : "<") + nv::num(z.value(a, b).first);
          }
      zs.push_back(z);
      d += ";";
    }
    if (quiet && nv::coin(3)) {
      zs.push_back(Zone()); // quiet mode counts whatever it is given
      d += " Zone();";
    }
    nv::begin(d);
    on();
    AnsPrinter p{PrintContainer(quiet)};
    size_t before = p.size();
    for (auto &z : zs)
      p.push_back(z);
    size_t after = p.size();
    std::string s = off();
    nv::check(before == 0 && after == zs.size(), "count", "size() is " + std::to_string(after));
    if (quiet) {
      nv::check(s.empty(), "quiet", "quiet mode printed " + s);
      continue;
    }
    std::istringstream in(s);
    std::string l;
    bool ok = true;
    std::string why;
    auto expect = [&](const Bounds &lo, const Bounds &up, const char *what) {
      // one line: LOW <= or < WHAT <= or < UP, six decimals
      if (!std::getline(in, l)) {
        ok = false;
        why = "a line is missing";
        return;
      }
      std::istringstream t(l);
      std::string a, r1, w, tok, r2, b, e;
      t >> a >> r1;
      while (t >> tok && tok != "<" && tok != "<=")
        w += (w.empty() ? "" : " ") + tok;
      r2 = tok;
      t >> b;
      bool extra = bool(t >> e);
      char x[400], y[400];
      snprintf(x, sizeof x, "%lf", -lo.first);
      snprintf(y, sizeof y, "%lf", up.first);
      if (a != x || b != y || r1 != (lo.second ? "<=" : "<") || r2 != (up.second ? "<=" : "<") || w != what || extra) {
        ok = false;
        why = "line '" + l + "' does not state " + x + (lo.second ? " <= " : " < ") + what + (up.second ? " <= " : " < ") + y;
      }
    };
    for (auto &z : zs) {
      expect(z.value(0, 1), z.value(1, 0), "t");
      expect(z.value(0, 2), z.value(2, 0), "t'");
      expect(z.value(1, 2), z.value(2, 1), "t' - t");
      if (ok && (!std::getline(in, l) || l.empty() || l.find_first_not_of('=') != std::string::npos))
        ok = false, why = "no separator line";
      if (!ok)
        break;
    }
    if (ok && std::getline(in, l))
      ok = false, why = "extra output '" + l + "'";
    nv::check(ok, "printed text", why);
    if (nv::coin(4)) {
      p.clear();
      nv::check(p.size() == 0, "count", "clear() leaves " + std::to_string(p.size()));
    }
  }
  return nv::done();
}
