// bounded check of the word and answer containers against the list of records written to the stream
#include "common.hh"
#include "ans_vec.hh"
#include "word_container.hh"
#include <deque>
#include <functional>

using Rec = std::pair<char, double>;
static double num() {
  switch (nv::rnd(0, 4)) {
  case 0: return nv::rnd(0, 50);
  case 1: return nv::rnd(0, 4000) / 16.0;
  case 2: return nv::rnd(0, 1000000) / 1000.0;
  case 3: return nv::rnd(1, 9) * 1e7 + nv::rnd(0, 99) / 8.0;
  default: return nv::rnd(0, 9) / 3.0;
  }
}
static FILE *file(const std::vector<Rec> &w, bool binary, std::string &text) {
  FILE *f = tmpfile();
  text = "";
  if (binary) {
    for (auto &e : w) {
      fwrite(&e.first, 1, 1, f);
      fwrite(&e.second, sizeof(double), 1, f);
      text += std::string(" ") + e.first + nv::num(e.second);
    }
    if (nv::coin(8)) { // an incomplete last record is no record
      fwrite("zzz", 1, nv::rnd(1, 3), f);
      text += " (incomplete record)";
    }
  } else {
    const std::vector<std::string> sep = {" ", "  ", "\t", " \t "}, end = {"\n", "\n\n", " \n", " ", "\n  "};
    for (size_t i = 0; i < w.size(); i++)
      text += w[i].first + nv::pick(sep) + nv::num(w[i].second) + (i + 1 == w.size() && nv::coin() ? "" : nv::pick(end));
    fwrite(text.data(), 1, text.size(), f);
  }
  rewind(f);
  return f;
}
template <class C> static void drive(C &c, const std::vector<Rec> &w, const std::string &base, bool keeps) {
  size_t front = 0, L = w.size();
  std::string ops;
  bool ended = false;
  for (int k = nv::rnd(1, 14); k > 0; k--) {
    size_t n = nv::rnd(0, 5) ? front + nv::rnd(0, 4) : nv::rnd(0, int(L) + 3);
    int op = nv::rnd(0, 6);
    if (op <= 2) {
      if (nv::coin(25))
        n = nv::coin() ? (size_t(1) << 31) + nv::rnd(0, 9) : (size_t(1) << 40);
      ops += " fetch(" + std::to_string(n) + ")";
      nv::begin(base + ops);
      bool r = c.fetch(n);
      nv::check(r == (n < L && n >= front), "fetch", "fetch answers " + std::to_string(r));
      ended = ended || n >= L;
      if (r) {
        Rec e = nv::coin() ? c[n] : c.at(n);
        nv::check(e == w[n], "element", "the element is " + std::string(1, e.first) + nv::num(e.second));
        if (n > front && nv::coin()) { // earlier positions are still there
          size_t q = nv::rnd(front, n);
          Rec e = c[q];
          nv::check(e == w[q], "element", "the element at " + std::to_string(q) + " is " + std::string(1, e.first) + nv::num(e.second));
        }
      }
      size_t s = c.size();
      nv::check(s == L || (s == std::numeric_limits<size_t>::max() && !ended), "size", "size is " + std::to_string(s));
    } else if (op == 3) {
      ops += " [" + std::to_string(n) + "]";
      nv::begin(base + ops);
      try {
        Rec e = c.at(n);
        nv::check(n < L && e == w[n], "element", "the element is " + std::string(1, e.first) + nv::num(e.second));
      } catch (std::out_of_range &) {
        nv::check(!keeps || n >= L, "element", "out of range");
      }
    } else if (op == 4 && nv::coin(3)) {
      ops += " setFront(" + std::to_string(n) + ")";
      nv::begin(base + ops);
      if (n < front && !keeps) {
        try {
          c.setFront(n);
          nv::check(false, "setFront", "discarded positions are promised again");
        } catch (std::out_of_range &) {
        }
      } else {
        c.setFront(n);
        if (!keeps)
          front = std::max(front, n);
        ended = ended || n > L;
      }
      size_t s = c.size();
      nv::check(s == L || s == std::numeric_limits<size_t>::max(), "size", "size is " + std::to_string(s));
    } else {
      size_t s = c.size();
      ops += " size()";
      nv::begin(base + ops);
      nv::check(s == L || s == std::numeric_limits<size_t>::max(), "size", "size is " + std::to_string(s));
    }
  }
}
int main(int argc, char **argv) {
  nv::init(argc, argv);
  const int N = nv::thorough ? 400000 : 12000;
  for (int it = 0; it < N && !nv::timeUp(); it++) {
    std::vector<Rec> w;
    const bool binary = nv::coin();
    for (int i = nv::coin(6) ? nv::rnd(0, 60) : nv::rnd(0, 7); i > 0; i--)
      w.push_back({binary ? char(nv::rnd(1, 126)) : char(nv::rnd('!', '~')), num()});
    std::string text;
    FILE *f = file(w, binary, text);
    std::string base = (binary ? "binary stream" : "text stream '") + text + (binary ? "" : "'");
    int kind = nv::rnd(0, 2);
    if (kind == 0) {
      nv::group = "LazyDeque";
      nv::begin(base);
      LazyDeque c(f, binary);
      drive(c, w, base, false);
    } else if (kind == 1) {
      nv::group = "WordLazyDeque";
      nv::begin(base);
      WordLazyDeque c(f, binary);
      drive(c, w, base, false);
    } else {
      nv::group = "WordVector";
      nv::begin(base);
      WordVector<Rec> c(f, binary);
      std::vector<Rec> v;
      nv::check(c.size() == w.size(), "size", "size is " + std::to_string(c.size()));
      for (size_t i = 0; i <= w.size(); i++) {
        nv::check(c.fetch(i) == (i < w.size()), "fetch", "fetch is wrong at " + std::to_string(i));
        if (i < w.size() && i < c.size())
          nv::check(c[i] == w[i] && c.at(i) == w[i], "element", "element " + std::to_string(i) + " is wrong");
        if (nv::coin(4))
          c.setFront(i);
      }
    }
    fclose(f);
    // answer containers
    nv::group = "answer containers";
    int k = nv::rnd(0, 9);
    std::string s = "push";
    AnsVec<int> av;
    AnsNum<int> an;
    std::vector<int> want;
    for (int i = 0; i < k; i++) {
      int x = nv::rnd(0, 99);
      s += " " + std::to_string(x);
      if (nv::coin(8)) {
        s += "(clear)";
        av.clear(), an.clear(), want.clear();
      }
      if (nv::coin(6))
        av.reserve(nv::rnd(0, 20)), an.reserve(3);
      av.push_back(x), an.push_back(x), want.push_back(x);
    }
    nv::begin(s);
    nv::check(std::vector<int>(av.begin(), av.end()) == want && av.size() == want.size(), "answers", "the collected answers differ");
    nv::check(an.size() == want.size(), "answers", "the count differs");
  }
  return nv::done();
}
