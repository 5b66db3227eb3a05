// C12: proving
#include "ref.h"
#include <list>
#include <memory>
#include <ringing/proof.h>
using namespace ringing; using std::vector; using std::string; using std::list;
typedef std::list<std::pair<P, vector<int> > > FI;
// the rows rung so far, each with its line
struct Ref {
  vector<P> h; int max; bool off;
  size_t count(const P &p) const { return std::count(h.begin(), h.end(), p); }
  bool truth() const { if (off || max == -1) return true; for (auto &p : h) if ((int)count(p) > max) return false; return true; }
  size_t dups() const { std::set<P> s(h.begin(), h.end()); return h.size() - s.size(); }
  std::map<P, vector<int> > info() const { std::map<P, vector<int> > m, o; if (off || max == -1) return o; for (size_t i = 0; i < h.size(); ++i) m[h[i]].push_back(i + 1); for (auto &x : m) if ((int)x.second.size() > max) o.insert(x); return o; }
};
static string hs(const vector<P> &h) { string s; for (auto &p : h) s += ps(p); return s; }
static std::map<P, vector<int> > gather(const prover::failinfo &fi, bool &dup) {
  std::map<P, vector<int> > m; dup = false;
  for (auto &x : fi) { vector<int> l(x._lines.begin(), x._lines.end()); if (m.count(of(x._row))) dup = true; m[of(x._row)] = l; }
  return m;
}
static vector<P> pool(int n, int k) { vector<P> v; for (int i = 0; i < k; ++i) v.push_back(rndperm(n)); return v; }
static void agree(const prover &p, const Ref &r, const vector<P> &rows, const prover::failinfo *fi) {
  CHECKM(p.size() == r.h.size(), p.size()); CHECKM(p.duplicates() == r.dups(), p.duplicates() << " expected " << r.dups()); CHECK(p.truth() == r.truth());
  for (auto &q : rows) CHECKM(p.count_row(mk(q)) == r.count(q), ps(q) << " counted " << p.count_row(mk(q)));
  if (fi) { bool dup; auto g = gather(*fi, dup); CHECK(!dup); auto e = r.info(); 
    for (auto &x : g) { auto &l = x.second; CHECKM(e.count(x.first), "row " << ps(x.first) << " reported false"); vector<int> s(l); std::sort(s.begin(), s.end()); CHECKM(s == e[x.first], "lines " << ps(l) << " of row " << ps(x.first) << " expected " << ps(e[x.first])); }
    for (auto &x : e) CHECKM(g.count(x.first), "row " << ps(x.first) << " not reported"); }
}
static void add(prover &p, Ref &r, const P &q) { r.h.push_back(q); bool b = p.add_row(mk(q)); CHECKM(b == r.truth(), "add_row(" << ps(q) << ")"); }
static void drop(prover &p, Ref &r, P q) { // the last time it was rung
  for (size_t i = r.h.size(); i--; ) if (r.h[i] == q) { r.h.erase(r.h.begin() + i); break; }
  p.remove_row(mk(q));
}
SECTION("C12", "all short histories, in and out in order") {
  // every sequence of adding one of three rows, or removing the last
  const vector<P> rows = {{0, 1, 2}, {1, 0, 2}, {1, 0}}; const int L = vh::thorough() ? 9 : 7;
  for (int max : {1, 2, 3, 0, -1}) for (int mode = 0; mode < 2; ++mode) {
    struct Go { static void go(vector<int> &ops, int depth, int L, const vector<P> &rows, int max, int mode) {
      if (ops.size()) {
        INPUT("max=" << max << " failinfo=" << mode << " ops=" << ps(ops) << " (3 removes the last row)");
        prover::failinfo fi; prover *p = mode ? new prover(fi, max) : new prover(max); std::unique_ptr<prover> o(p); Ref r = {{}, max, false};
        for (int x : ops) if (x < 3) add(*p, r, rows[x]); else drop(*p, r, r.h.back());
        agree(*p, r, rows, mode ? &fi : 0);
      }
      if ((int)ops.size() == L) return;
      for (int x = 0; x < 4; ++x) { if (x == 3 && !depth) continue; ops.push_back(x); go(ops, depth + (x == 3 ? -1 : 1), L, rows, max, mode); ops.pop_back(); }
    } };
    vector<int> ops; Go::go(ops, 0, mode ? L : L - 1, rows, max, mode);
  }
}
SECTION("C12", "random histories") {
  for (int t = 0; t < (vh::thorough() ? 20000 : 2500); ++t) {
    int n = 1 + vh::rnd(6), max = 1 + vh::rnd(3); auto rows = pool(n, 1 + vh::rnd(8)); if (vh::rnd(4) == 0) rows.push_back(rndperm(n + 1)); bool anyorder = vh::rnd(3) == 0, info = vh::rnd(2);
    prover::failinfo fi; std::unique_ptr<prover> p(info ? new prover(fi, max) : new prover(max)); Ref r = {{}, max, false}; string log;
    INPUT("max=" << max << " failinfo=" << info << " history " << log);
    for (int k = 1 + vh::rnd(30); k--; ) {
      if (r.h.size() && vh::rnd(3) == 0) { P q = anyorder ? r.h[vh::rnd(r.h.size())] : r.h.back(); log += " -" + ps(q); drop(*p, r, q); }
      else { P q = rows[vh::rnd(rows.size())]; log += " +" + ps(q); add(*p, r, q); }
      agree(*p, r, rows, info && !anyorder ? &fi : 0);
    }
    P q = rndperm(n + 3); THROWS(std::logic_error, p->remove_row(mk(q))); agree(*p, r, rows, 0);
  }
}
SECTION("C12", "branches") {
  for (int t = 0; t < (vh::thorough() ? 20000 : 3000); ++t) {
    int n = 1 + vh::rnd(4), max = 1 + vh::rnd(3); auto rows = pool(n, 1 + vh::rnd(5)); bool info = vh::rnd(2), anyorder = !info && vh::rnd(3) == 0;
    prover::failinfo fi; shared_pointer<prover> p(info ? new prover(fi, max) : new prover(max)); Ref r = {{}, max, false}; string log;
    INPUT("max=" << max << " failinfo=" << info << " history " << log);
    for (int d = 1 + vh::rnd(4); d--; ) {
      const size_t base = r.h.size();
      for (int k = vh::rnd(9); k--; ) {
        if (r.h.size() > base && vh::rnd(4) == 0) { size_t j = anyorder ? base + vh::rnd(r.h.size() - base) : r.h.size() - 1; P q = r.h[j]; log += " -" + ps(q); drop(*p, r, q); }
        else { P q = rows[vh::rnd(rows.size())]; log += " +" + ps(q); add(*p, r, q); }
        agree(*p, r, rows, info ? &fi : 0);
      }
      // a row rung only before the branch cannot be removed from it
      for (size_t i = 0; i < base; ++i) if (std::find(r.h.begin() + base, r.h.end(), r.h[i]) == r.h.end()) { THROWS(std::logic_error, p->remove_row(mk(r.h[i]))); break; }
      agree(*p, r, rows, info ? &fi : 0);
      if (!d) break;
      // branches are independent of each other, and the history that they share is kept
      if (!info) {
        auto s = prover::create_branch(p); Ref rs = r; for (int k = vh::rnd(5); k--; ) add(*s, rs, rows[vh::rnd(rows.size())]); agree(*s, rs, rows, 0); agree(*p, r, rows, 0);
        if (vh::rnd(3) == 0) { auto s2 = prover::create_branch(s); s2->disable_proving(); Ref r2 = rs; r2.off = true; for (int k = vh::rnd(6); k--; ) add(*s2, r2, rows[vh::rnd(rows.size())]); agree(*s2, r2, rows, 0); agree(*s, rs, rows, 0); }
      }
      log += " branch"; p = prover::create_branch(p); agree(*p, r, rows, info ? &fi : 0);
    }
  }
}
typedef vector<row>::const_iterator It;
static void proofcase(const vector<P> &a, const vector<P> &b, int max) {
  vector<row> av, bv; for (auto &p : a) av.push_back(mk(p)); for (auto &p : b) bv.push_back(mk(p)); vector<P> all(a); all.insert(all.end(), b.begin(), b.end()); vector<row> allv(av); allv.insert(allv.end(), bv.begin(), bv.end());
  Ref r = {all, max, false}, r1 = {all, 1, false}; INPUT("rows " << hs(a) << " then " << hs(b) << " max=" << max);
  auto inf = [](const proof<It> &p, const Ref &r) { bool dup; auto g = gather(p.failed(), dup); CHECK(!dup); auto e = r.info(); for (auto &x : g) std::sort(x.second.begin(), x.second.end()); CHECK(g == e); CHECK((int(p) != 0) == r.truth()); CHECK(!p == !r.truth()); 
    std::ostringstream o; o << p; const string t = o.str(); if (r.truth()) CHECK(t == "True\n"); else { CHECK(t.compare(0, 6, "False\n") == 0); size_t lines = std::count(t.begin(), t.end(), '\n'); CHECK(lines == 1 + e.size()); for (auto &x : e) { CHECKM(t.find("Row " + rstr(x.first) + " is repeated on lines") != string::npos, o.str()); } } };
  { proof<It> p(allv.begin(), allv.end(), max); inf(p, r); }
  { proof<It> p(allv.begin(), allv.end()); inf(p, r1); CHECK(p.prove(allv.begin(), allv.end(), max) == r.truth()); inf(p, r); CHECK(p.prove(allv.begin(), allv.begin())); CHECK(p.failed().empty()); CHECK(int(p) == 1); }
  { proof<It> p(av.begin(), av.end(), bv.begin(), bv.end(), max); inf(p, r); proof<It> q(av.begin(), av.end(), bv.begin(), bv.end()); inf(q, r1); }
  { proof<It> p; CHECK(!p); CHECK(p.prove(av.begin(), av.end(), bv.begin(), bv.end(), max) == r.truth()); inf(p, r); }
  { proof<It> p(allv.begin(), allv.end(), max, true), q(av.begin(), av.end(), bv.begin(), bv.end(), max, true), s(allv.begin(), allv.end(), true); CHECK((int(p) != 0) == r.truth()); CHECK((int(q) != 0) == r.truth()); CHECK((int(s) != 0) == r1.truth()); CHECK(p.prove(av.begin(), av.end(), bv.begin(), bv.end(), true) == r1.truth()); CHECK(p.prove(allv.begin(), allv.end(), max, true) == r.truth()); }
}
SECTION("C12", "proof of listed rows") {
  const vector<P> rows = {{0, 1, 2}, {1, 0, 2}, {2, 1, 0}};
  for (int len = 0; len <= (vh::thorough() ? 7 : 5); ++len) { int N = 1; for (int i = 0; i < len; ++i) N *= 3; for (int c = 0; c < N; ++c) { vector<P> a; for (int i = 0, x = c; i < len; ++i, x /= 3) a.push_back(rows[x % 3]); for (int max = 1; max <= 3; ++max) { int cut = vh::rnd(len + 1); proofcase(vector<P>(a.begin(), a.begin() + cut), vector<P>(a.begin() + cut, a.end()), max); } } }
  for (int t = 0; t < (vh::thorough() ? 10000 : 600); ++t) { int n = 1 + vh::rnd(12); auto p = pool(n, 1 + vh::rnd(9)); vector<P> a, b; for (int k = vh::rnd(14); k--; ) a.push_back(p[vh::rnd(p.size())]); for (int k = vh::rnd(14); k--; ) b.push_back(p[vh::rnd(p.size())]); proofcase(a, b, 1 + vh::rnd(4)); }
}
SECTION("C12", "whole extents") {
  for (int n = 1; n <= 6; ++n) { auto v = allperms(n); std::shuffle(v.begin(), v.end(), vh::rng()); for (int e = 1; e <= 3; ++e) { INPUT("extent on " << n << " bells, " << e << " times"); prover p(e); for (int k = 0; k < e; ++k) for (auto &q : v) CHECK(p.add_row(mk(q))); CHECK(p.truth()); CHECK(p.size() == e * v.size()); CHECK(p.duplicates() == (e - 1) * v.size()); CHECK(!p.add_row(mk(v[0]))); CHECK(!p.truth()); p.remove_row(mk(v[0])); CHECK(p.truth()); } }
}
