// Bounded checks of falseness tables and false course heads (C16).
#include "ref.h"
#include <ringing/method.h>
#include <ringing/falseness.h>
#include <ringing/group.h>
using namespace ringing;
using std::vector; using std::string;
typedef vector<vector<int> > M; // a method: the swaps of each change
typedef std::set<P> PS;
static const struct { const char *r, *s; } NAMES[] = {
#include "fch.dat"
};
static method mkm(const M &m, int n) { method r(m.size(), n, ""); for (size_t i = 0; i < m.size(); ++i) r[i] = mkch(m[i], n); return r; }
static vector<P> leadrows(const M &m, int n, size_t len) { vector<P> v; P r = ident(n); for (size_t i = 0; i < len; ++i) { v.push_back(r); r = mul(r, invol(m[i], n)); } return v; }
static P lh(const M &m, int n) { P r = ident(n); for (auto &c : m) r = mul(r, invol(c, n)); return r; }
static int sgn(const P &p) { int s = 1; for (size_t i = 0; i < p.size(); ++i) for (size_t j = 0; j < i; ++j) if (p[j] > p[i]) s = -s; return s; }
static string ms(const M &m, int n) { string s; for (auto &c : m) { s += s.empty() ? "" : "."; s += mkch(c, n).print(); } return s + " on " + std::to_string(n); }
static M rndm(int n, int len) { M m; bool pal = vh::rnd(2); for (int i = 0; i < len; ++i) m.push_back(rndchange(n)); if (pal) for (int i = 0; i + 1 < len; ++i) m[len - 2 - i] = m[i]; return m; }
// a method with a fixed treble (when even) hunting plainly, that never moves two bells past the treble
static M treble(int n, bool pal) { M m; for (int i = 0; i < 2 * n; ++i) { int p = i < n ? i : 2 * n - 1 - i, q = i + 1 < n ? i + 1 : i + 1 == n ? n - 1 : 2 * n - 2 - i; vector<int> s; if (q < 0) q = 0; int lo = std::min(p, q); bool fix = p == q; auto fill = [&](int a, int b) { for (int k = a; k + 1 < b; ++k) if (vh::rnd(4)) { s.push_back(k); ++k; } }; fill(0, lo); if (!fix) s.push_back(lo); fill(fix ? p + 1 : lo + 2, n); std::sort(s.begin(), s.end()); m.push_back(s); } if (pal) for (int i = 0; i < n - 1; ++i) m[2 * n - 2 - i] = m[i]; return m; }
static PS falses(const vector<P> &A, const vector<P> &B, int n, int fl) {
  PS all, r; if (n <= 5) { std::set<P> a(A.begin(), A.end()); P f = ident(n); do { bool hit = false; for (auto &b : B) if (a.count(mul(f, b))) { hit = true; break; } if (hit) all.insert(f); } while (std::next_permutation(f.begin(), f.end())); }
  else for (auto &a : A) for (auto &b : B) all.insert(mul(a, inv(b)));
  for (auto &f : all) if ((fl & 2 || f[0] == 0) && !(fl & 1 && sgn(f) < 0) && !(fl & 8 && sgn(f) > 0)) r.insert(f);
  return r;
}
template <class T> static void same(const T &t, const PS &e) {
  PS g; size_t k = 0; for (auto &r : t) { P p = of(r); CHECKM(g.insert(p).second, ps(p) << " twice"); CHECKM(e.count(p), ps(p) << " should not be there"); ++k; } for (auto &p : e) CHECKM(g.count(p), ps(p) << " is missing"); CHECK(t.size() == k && k == e.size());
}
static PS closure(const PS &gens, int n) { PS g; g.insert(ident(n)); vector<P> q(1, ident(n)); while (!q.empty()) { P x = q.back(); q.pop_back(); for (auto &y : gens) { P z = mul(x, y); if (g.insert(z).second) q.push_back(z); } if (g.size() > 1300) break; } return g; }
static void tables(const M &a, const M &b, int n, int fl) {
  INPUT("methods " << ms(a, n) << " and " << ms(b, n) << " flags " << fl); method A = mkm(a, n), B = mkm(b, n); size_t la = fl & 4 ? a.size() / 2 : a.size(), lb = fl & 4 ? b.size() / 2 : b.size(); vector<P> ra = leadrows(a, n, la), rb = leadrows(b, n, lb); vector<row> va, vb; for (auto &p : ra) va.push_back(mk(p)); for (auto &p : rb) vb.push_back(mk(p));
  PS aa = falses(ra, ra, n, fl), ab = falses(ra, rb, n, fl); { falseness_table t(A, fl); same(t, aa); PS g; for (auto &r : t) g.insert(of(r)); for (auto &p : g) CHECKM(g.count(inv(p)), "not closed under inverse"); if (!(fl & 8)) CHECK(g.count(ident(n)) || !la); }
  { falseness_table t(A, B, fl); same(t, ab); falseness_table u; CHECK(u.size() == 1 && u.begin()->isrounds()); u.swap(t); same(u, ab); CHECK(t.size() == 1); std::swap(t, u); same(t, ab); falseness_table c(t); same(c, ab);
    PS gens; if (fl & 8) { for (auto &x : ab) for (auto &y : ab) gens.insert(mul(x, inv(y))); } else gens = ab; if (!gens.empty()) { PS e = closure(gens, n); if (e.size() < 1300) { group g(t.generate_group()); CHECKM(g.size() == e.size(), g.size() << " elements, expected " << e.size()); for (auto &r : g) CHECK(e.count(of(r))); } } }
  { falseness_table t(A, vb, fl); same(t, ab); } { falseness_table t(va, vb, fl); same(t, ab); }
}
SECTION("C16", "falseness tables of small methods") {
  for (int n = 3; n <= 5; ++n) { auto C = allchanges(n); int L = vh::thorough() ? 3 : 2; for (size_t k = 0; k < C.size(); ++k) for (size_t l = 0; l < C.size(); ++l) { M a(1, C[k]); a.push_back(C[l]); if (L > 2) a.push_back(C[(k + l) % C.size()]); M b(a); b.push_back(C[(k * 3 + l) % C.size()]); b.push_back(C[l]); tables(a, b, n, vh::rnd(16)); tables(b, a, n, vh::rnd(16)); } }
  tables(M(), M(), 4, 0); tables(M(1), M(), 4, 3);
}
SECTION("C16", "falseness tables of generated methods") {
  for (int t = 0; t < (vh::thorough() ? 3000 : 400); ++t) { int n = 4 + vh::rnd(5); M a = vh::rnd(2) ? treble(n, vh::rnd(2)) : rndm(n, 1 + vh::rnd(14)), b = vh::rnd(2) ? treble(n, vh::rnd(2)) : rndm(n, 1 + vh::rnd(14)); for (int k = 0; k < 3; ++k) tables(a, b, n, vh::rnd(16)); }
}
// false course heads: the tenor and treble at home, the course from there shares a row with the plain course
static PS fch(const M &m, int n, int fl) {
  P l = lh(m, n); vector<P> lead = leadrows(m, n, m.size()); vector<P> lhs; P x = ident(n); do { lhs.push_back(x); x = mul(x, l); } while (x != ident(n));
  vector<P> pl; for (auto &h : lhs) for (auto &r : lead) pl.push_back(mul(h, r)); PS all;
  if (n <= 6) { PS s(pl.begin(), pl.end()); P c = ident(n); do { if (c[0] || c[n - 1] != n - 1) continue; for (auto &r : pl) if (s.count(mul(c, r))) { all.insert(c); break; } } while (std::next_permutation(c.begin(), c.end())); }
  else for (auto &a : pl) for (auto &b : lead) { P c = mul(a, inv(b)); for (auto &h : lhs) { P d = mul(c, h); if (d[0] == 0 && d[n - 1] == n - 1) all.insert(d); } }
  PS r; for (auto &c : all) { if (fl & 1 && sgn(c) < 0) continue; if (fl & 2) { bool ok = true; for (int i = 6; i < n; ++i) if (c[i] != i) ok = false; if (!ok) continue; } r.insert(c); } return r;
}
static bool onecycle(const P &l) { int n = l.size(); if (l[0]) return false; int c = 0, x = n - 1; do { x = l[x]; ++c; } while (x != n - 1); int f = 0; for (int i = 0; i < n; ++i) f += l[i] == i; return c > 1 && c + f == n; }
static string name(const string &r6, int n) { for (auto &x : NAMES) if (r6 == x.r) return n == 8 ? string(x.s, 1) : n == 10 && string(x.s) == "D1" ? "B1" : string(x.s); return ""; }
static const vector<P> &hunt(int n) { static std::map<int, vector<P> > c; auto &v = c[n]; if (v.empty()) { P pb = of(row::pblh(n)), t = ident(n); for (int i = 2; i + 1 < n; i += 2) std::swap(t[i], t[i + 1]); PS g; g.insert(pb); g.insert(t); for (auto &p : closure(g, n)) v.push_back(p); } return v; }
static string cls(const P &c) { // the name of the class of a false course head: its double coset by the hunting group, and the inverses
  int n = c.size(); static std::map<P, string> memo; auto i = memo.find(c); if (i != memo.end()) return i->second; string r; PS all; for (auto &x : hunt(n)) for (auto &y : hunt(n)) { P d = mul(mul(x, c), y); all.insert(d); all.insert(inv(d)); }
  for (auto &d : all) { bool tt = true; for (int k = 6; k < n; ++k) if (d[k] != k) tt = false; if (tt && r.empty()) r = name(rstr(P(d.begin(), d.begin() + 6)), n); if (r.empty() && n == 8) { string s = rstr(d); if (s == "17623548") r = "X"; else if (s == "17645328") r = "Y"; else if (s == "17632458") r = "Z"; } }
  for (auto &d : all) memo[d] = r; return r;
}
SECTION("C16", "names of false course heads") {
  PS seen; for (auto &x : NAMES) { INPUT("entry " << x.r); row r(x.r); P p = of(r); CHECK(p.size() == 6 && p[0] == 0 && isperm(p)); CHECK(seen.insert(p).second); for (int n : {6, 8, 10, 12, 14, 16}) { P q = ident(n); std::copy(p.begin(), p.end(), q.begin()); INPUT("on " << n); string s = false_courses::lookup_symbol(mk(q)); string e = n == 6 ? name(x.r, n) : cls(q); CHECKM(n == 6 ? s == e || !s.empty() : s == e, "named " << s << " expected " << e); if (n > 6 && n != 8 && n != 10) CHECKM(e == x.s, "class named " << e << " entry " << x.s); } }
  CHECK(seen.size() == 120);
  for (auto &p : allperms(7)) { if (!vh::thorough() && vh::rnd(4)) continue; P q; q.push_back(0); for (int b : p) q.push_back(b + 1); INPUT("course head " << ps(q)); string s = false_courses::lookup_symbol(mk(q)), e = cls(q); CHECKM(!e.empty(), "every 8-bell false course head has a name"); CHECKM(s == e, "named " << s << " expected " << e); }
}
static void courses(const M &m, int n) {
  P l = lh(m, n); for (int fl = 0; fl < 4; ++fl) { INPUT("method " << ms(m, n) << " flags " << fl); false_courses f(mkm(m, n), fl); if (!onecycle(l)) { CHECK(f.size() >= 1); continue; } PS e = fch(m, n, fl); same(f, e); for (auto &p : e) { bool ok = false; P q = inv(p); ok = e.count(q); CHECKM(ok || fl, "inverse of " << ps(p)); }
    { false_courses g; CHECK(g.size() == 1 && g.begin()->isrounds()); g.swap(f); same(g, e); std::swap(f, g); same(f, e); }
    bool reg = mk(l).ispblh() != 0; string s; bool th = false; try { s = f.symbols(); } catch (std::logic_error const &) { th = true; } bool ok = (fl & 2 || n == 8) && n % 2 == 0 && reg; CHECKM(th == !ok, "symbols"); if (!ok) continue; std::set<string> names; for (auto &p : e) { bool tt = true; for (int k = 6; k < n; ++k) if (p[k] != k) tt = false; string r8 = rstr(p), x = n < 6 ? "" : tt ? name(rstr(P(p.begin(), p.begin() + 6)), n) : n == 8 && r8 == "17623548" ? "X" : n == 8 && r8 == "17645328" ? "Y" : n == 8 && r8 == "17632458" ? "Z" : ""; if (!x.empty()) names.insert(x); } string want; for (auto &x : names) want += x; CHECKM(s == want, "symbols " << s << " expected " << want);
    false_courses::optimise(n); CHECK(f.symbols() == want); false_courses::optimise(vh::rnd(2) ? 0 : 8 + 2 * vh::rnd(3)); CHECK(f.symbols() == want); false_courses::optimise(0); }
}
SECTION("C16", "false course heads of small methods") {
  for (int n = 4; n <= 5; ++n) { auto C = allchanges(n); for (auto &a : C) for (auto &b : C) { M m; m.push_back(a); m.push_back(b); courses(m, n); m.push_back(a); m.push_back(C[vh::rnd(C.size())]); courses(m, n); } }
  for (int t = 0; t < 150; ++t) courses(treble(6, vh::rnd(3)), 6); for (int t = 0; t < 30; ++t) courses(rndm(6, 1 + vh::rnd(10)), 6);
}
SECTION("C16", "false course heads of larger methods") {
  for (int t = 0; t < (vh::thorough() ? 300 : 40); ++t) { int n = vh::rnd(3) ? 8 : 7 + vh::rnd(4); M m = treble(n, vh::rnd(3) > 0); courses(m, n); }
  for (int t = 0; t < (vh::thorough() ? 60 : 8); ++t) { int n = 10 + 2 * vh::rnd(2); for (int k = 0; k < 200; ++k) { M m = treble(n, true); if (mk(lh(m, n)).ispblh()) { courses(m, n); break; } } }
  method gr("3.1.7.1.7.1.7.1.7.1.7.1.7.1", 7); INPUT("Grandsire Triples"); false_courses f(gr); CHECK(f.size() >= 1);
}
SECTION("C16", "falseness of known methods") {
  struct { const char *pn; int n; const char *s; } K[] = {{"&-58-14.58-58.36-14-58-36-18,12", 8, 0}, {"&-38-14-1258-36-14-58-16-78,12", 8, "BDE"}, {"&-5-4.5-5.36-4-5-6-1,18", 8, 0}, {"&-58-16-12-36-14-58-14-78,12", 8, 0}};
  for (auto &k : K) { INPUT("method " << k.pn); method m(k.pn, k.n); M r; for (auto &c : m) { P p = chp(c, k.n); vector<int> s; for (int i = 0; i + 1 < k.n; ++i) if (p[i] == i + 1) s.push_back(i); r.push_back(s); } courses(r, k.n); if (k.s) { string in = false_courses(m, 1).symbols(); CHECKM(in == k.s || in == string("A") + k.s, "falseness " << in); } }
}
