// Bounded checks of dimensions (C20), touches (C22) and the owning pointers (C24).
#include "vh.h"
#include <ringing/dimension.h>
#include <ringing/touch.h>
#include <ringing/pointers.h>
#include <regex>
#include <memory>
#include <numeric>
using namespace ringing;
using std::vector; using std::string;
typedef long long ll;
// ---------------------------------------------------------------- dimensions
struct Q { bool ok; ll n, d; int u; };
static Q refread(const string &s) {
  static const std::regex re("\\s*(-?)\\s*([0-9]+)(\\.([0-9]*)|\\s+([0-9]+)\\s*/\\s*([0-9]+)|\\s*/\\s*([0-9]+))?\\s*(pt|points|point|in|\"|inches|inch|cm|mm)(\\s*)");
  std::smatch m; Q r = {false, 0, 1, 0};
  if (!std::regex_match(s, m, re)) return r;
  r.ok = true; r.n = atoll(m[2].str().c_str());
  if (m[6].matched && m[6].length()) { r.d = atoll(m[6].str().c_str()); r.n = r.n * r.d + atoll(m[5].str().c_str()); }
  else if (m[7].matched && m[7].length()) r.d = atoll(m[7].str().c_str());
  else if (m[3].length()) for (char c : m[4].str()) { r.n = r.n * 10 + (c - '0'); r.d *= 10; }
  if (r.d == 0) { r.ok = false; return r; }
  if (m[1].length()) r.n = -r.n;
  ll g = std::gcd(r.n, r.d); r.n /= g; r.d /= g; string u = m[8]; r.u = u[0] == 'p' ? 0 : u == "cm" ? 2 : u == "mm" ? 3 : 1;
  return r;
}
static const double PT[] = {1, 72, 72 / 2.54, 72 / 25.4};
static string pr(const dimension &d) { std::ostringstream o; o << d.n << "/" << d.d << " unit " << d.u; return o.str(); }
static void readcase(const string &s) {
  Q q = refread(s); INPUT("text " << vh::q(s)); dimension d(17, 23, dimension::cm); bool ok = true;
  try { if (vh::rnd(2)) d.read(s); else d.read(s.c_str()); } catch (dimension::bad_format const &) { ok = false; }
  CHECKM(ok == q.ok, (ok ? "accepted as " + pr(d) : "rejected"));
  if (!ok) { CHECKM(d.n == 17 && d.d == 23 && d.u == dimension::cm, pr(d)); return; }
  if (q.n) CHECKM(d.n == q.n && d.d == q.d && d.u == q.u, pr(d)); else CHECKM(d.n == 0 && d.d > 0 && d.u == q.u, pr(d));
  double e = PT[q.u] * q.n / q.d; CHECKM(std::abs(d.in_points() - e) <= 1e-5 * std::abs(e), d.in_points());
  CHECK((d == 0) == (q.n == 0)); CHECK((d != 0) == (q.n != 0));
}
static const char *UN[] = {"pt", "points", "point", "in", "\"", "inches", "inch", "cm", "mm"};
SECTION("C20", "generated texts") {
  auto sp = [] { static const char *S[] = {"", "", "", " ", "  ", "\t", " \n"}; return string(S[vh::rnd(7)]); };
  auto num = [] { return vh::rnd(3) ? std::to_string(vh::rnd(30)) : vh::rnd(2) ? std::to_string(vh::rnd(10000)) : string(vh::rnd(3), '0') + std::to_string(vh::rnd(100)); };
  for (int t = 0; t < (vh::thorough() ? 300000 : 40000); ++t) {
    string s = sp() + (vh::rnd(3) ? "" : "-") + sp() + num();
    switch (vh::rnd(5)) { case 0: s += "." + (vh::rnd(4) ? std::to_string(vh::rnd(1000)) : string()); break; case 1: s += " " + sp() + num() + sp() + "/" + sp() + num(); break; case 2: s += sp() + "/" + sp() + num(); break; default:; }
    s += sp() + UN[vh::rnd(9)] + sp();
    if (vh::rnd(3) == 0 && s.size()) { size_t i = vh::rnd(s.size()); static const char M[] = "0123456789./- \"incmpt+x\x01\xff"; switch (vh::rnd(3)) { case 0: s.erase(i, 1); break; case 1: s[i] = M[vh::rnd(sizeof M - 1)]; break; default: s.insert(i, 1, M[vh::rnd(sizeof M - 1)]); } }
    // what follows white space after the unit is not part of the dimension; and the terms must fit
    static const std::regex trail("[^]*[a-z\"]\\s+\\S[^]*"), big("[^]*[0-9]{6}[^]*|[^]*[0-9]{4,}[^]*[0-9]{4,}[^]*[0-9]{4,}[^]*"); if (std::regex_match(s, trail) || std::regex_match(s, big)) continue;
    Q q = refread(s); if (q.ok && (std::abs(q.n) > 2000000000 || q.d > 2000000000)) continue;
    if (s.find('\0') != string::npos) continue;
    readcase(s);
  }
}
SECTION("C20", "all short texts") {
  static const char A[] = "02-./ i"; const int L = vh::thorough() ? 8 : 7;
  struct Go { static void go(string &s, int L) { if ((int)s.size() <= L) { readcase(s + "in"); if (s.size() < 5) { readcase(s); readcase(s + "mm"); readcase(s + "\""); readcase(s + "i n"); readcase(s + "foot"); } } if ((int)s.size() == L) return; for (const char *p = A; *p; ++p) { s += *p; go(s, L); s.resize(s.size() - 1); } } };
  string s; Go::go(s, L);
}
static void roundtrip(const dimension &d) {
  INPUT("dimension " << pr(d)); std::ostringstream o; o << d; string s = "junk"; string &r = d.write(s); CHECK(&r == &s); CHECKM(s == o.str(), vh::q(s) << " and " << vh::q(o.str()));
  dimension e(5, 7, dimension::mm); NOTHROW(e.read(s)); Q q = refread(s); CHECKM(q.ok, vh::q(s)); CHECKM((ll)e.n * d.d == (ll)d.n * e.d && e.u == d.u && e.d > 0, "printed " << vh::q(s) << " reads back as " << pr(e)); CHECK((ll)q.n * d.d == (ll)d.n * q.d && q.u == d.u);
}
SECTION("C20", "printing and arithmetic") {
  for (int n = -40; n <= 40; ++n) for (int d = 1; d <= 16; ++d) for (int u = 0; u < 4; ++u) roundtrip(dimension(n, d, (dimension::units)u));
  for (int t = 0; t < 20000; ++t) { dimension d(vh::rnd(200000) - 100000, 1 + vh::rnd(20000), (dimension::units)vh::rnd(4)); roundtrip(d);
    dimension r = d; r.reduce(); INPUT("dimension " << pr(d)); CHECKM((ll)r.n * d.d == (ll)d.n * r.d && r.d > 0 && (r.n == 0 || std::gcd(r.n, r.d) == 1) && r.u == d.u, pr(r));
    dimension m(d.n, -d.d, d.u); m.reduce(); CHECKM((ll)m.n * d.d == -(ll)d.n * m.d && m.d > 0 && m.u == d.u, pr(m));
    int k = (int)vh::rnd(2000) - 1000; dimension x = d * k; CHECKM((ll)x.n * d.d == (ll)d.n * k * x.d && x.d > 0 && x.u == d.u, k << ": " << pr(x)); if (k) { dimension y = d / k; CHECKM((ll)y.n * d.d * k == (ll)d.n * y.d && y.d > 0 && y.u == d.u, k << ": " << pr(y)); dimension z = d; z /= k; CHECK(z.n == y.n && z.d == y.d); z *= k; CHECK((ll)z.n * d.d == (ll)d.n * z.d); }
    dimension g = -d; CHECK(g.n == -d.n && g.d == d.d && g.u == d.u); double e = PT[d.u] * d.n / d.d; CHECKM(std::abs(d.in_points() - e) <= 1e-5 * std::abs(e), d.in_points()); CHECK((d == 0) == (d.n == 0)); CHECK((d != 0) == (d.n != 0)); }
  for (int t = 0; t < 5000; ++t) { float v = ((int)vh::rnd(200000) - 100000) / 64.0f; int den = 1 + vh::rnd(200); dimension::units u = (dimension::units)vh::rnd(4); INPUT("set_float(" << v << ", " << den << ", " << u << ")"); dimension d; d.set_float(v, den, u); CHECKM(std::abs((double)d.n / d.d - v) <= 1.0 / den * 1.001 && d.u == u && d.d > 0 && den % d.d == 0, pr(d)); if (std::abs(v) < 1000 && den <= 100 && v * den == (int)(v * den)) CHECKM((double)d.n == (double)v * d.d, pr(d)); }
  dimension a, b(3); CHECK(a.n == 0 && a.d == 1 && a.u == dimension::points); CHECK(b.n == 3 && b.d == 1 && b.u == dimension::points); CHECK(b.in_points() == 3);
}
// ------------------------------------------------------------------- touches
typedef vector<change> CV;
struct Node { int kind; CV c; vector<std::pair<int, int> > ch; touch_node *p; int b; };
static CV expand(const vector<Node> &v, int i) { if (v[i].kind == 0) return v[i].c; CV r; for (auto &e : v[i].ch) { CV x = expand(v, e.second); for (int k = 0; k < e.first; ++k) r.insert(r.end(), x.begin(), x.end()); } return r; }
static string show(const vector<Node> &v, int i) { string s; if (v[i].kind == 0) { s = "("; for (auto &c : v[i].c) s += (s.size() > 1 ? "." : "") + c.print(); return s + ")"; } s = "["; for (auto &e : v[i].ch) s += std::to_string(e.first) + "*" + show(v, e.second) + " "; return s + "]"; }
static change rndch(int b) { vector<int> pl; for (int i = 0; i < b; ) { if (i + 1 < b && vh::rnd(2)) i += 2; else pl.push_back(i++); } change c(b); for (int i = 0; i + 1 < b; ) { if (std::find(pl.begin(), pl.end(), i) == pl.end()) { c.swappair(i); i += 2; } else ++i; } return c; }
template <class T> static void walk(const T &t, const CV &e) {
  touch_node::const_iterator i = t.begin(), z = t.end(); size_t k = 0; vector<touch_node::const_iterator> all;
  for (; i != z; ++k) { if (k >= e.size()) { CHECKM(k < e.size(), "more than " << e.size() << " changes"); return; } CHECKM(*i == e[k], "change " << k << " is " << (*i).print() << " not " << e[k].print()); CHECK(i->print() == e[k].print()); if (e.size() < 30) all.push_back(i); touch_node::const_iterator j(i); if (k % 3 == 0) ++i; else if (k % 3 == 1) { touch_node::const_iterator o = i++; CHECK(o == j); } else { touch_node::const_iterator o; o = i; ++o; i = o; } CHECK(j != i); CHECK(*j == e[k]); CHECK(i == i); }
  CHECKM(k == e.size(), "only " << k << " of " << e.size() << " changes"); CHECK(i == t.end()); CHECK(t.begin() == t.begin()); CHECK((t.begin() == t.end()) == e.empty());
  for (size_t a = 0; a < all.size(); ++a) { CHECK(*all[a] == e[a]); touch_node::const_iterator c = t.begin(); for (size_t x = 0; x < a; ++x) ++c; for (size_t b = 0; b < all.size(); ++b) CHECKM((c == all[b]) == (a == b), "positions " << a << " and " << b); size_t left = 0; for (; c != z; ++c) ++left; CHECK(left == e.size() - a); }
  size_t rep = 0; for (touch_node::const_iterator x = t.begin(), y = t.end(); x != y; ++x) CHECK(*x == e[rep++]); CHECK(rep == e.size());
}
SECTION("C22", "touch trees") {
  for (int t = 0; t < (vh::thorough() ? 60000 : 8000); ++t) {
    int b = 3 + vh::rnd(6), N = 1 + vh::rnd(7); vector<Node> v(N); std::unique_ptr<touch> to(new touch); CHECK(to->begin() == to->end());
    for (int i = 0; i < N; ++i) {
      v[i].kind = i && vh::rnd(2);
      if (v[i].kind == 0) { for (int k = vh::rnd(5); k--; ) v[i].c.push_back(rndch(b)); touch_changes *tc; switch (vh::rnd(4)) { case 0: tc = new touch_changes(v[i].c); break; case 1: tc = new touch_changes(v[i].c.begin(), v[i].c.end()); break; default: tc = new touch_changes; for (auto &c : v[i].c) tc->push_back(c); } v[i].p = tc; }
      else { touch_child_list *l = new touch_child_list; for (int k = vh::rnd(5); k--; ) { int c = vh::rnd(i), n = vh::rnd(4) ? 1 : vh::rnd(4); v[i].ch.push_back({n, c}); if (vh::rnd(2)) l->push_back(n, v[c].p); else l->children().push_back({n, v[c].p}); }
        if (vh::rnd(5) == 0) { l->push_back(2, v[0].p); l->pop_back(); } v[i].p = l; CHECK(((const touch_child_list *)l)->children().size() == v[i].ch.size()); }
      to->push_back(v[i].p); CHECK(to->get_node(i) == v[i].p);
    }
    int h = vh::rnd(4) ? N - 1 : vh::rnd(N); to->set_head(v[h].p); CHECK(to->get_head() == v[h].p); CV e = expand(v, h); if (e.size() > 400) continue; INPUT("touch " << show(v, h)); walk(*to, e); walk(*v[h].p, e);
    touch c(*to); walk(c, e); CHECK(((const touch &)c).get_head() == v[h].p);
    if (vh::rnd(2)) { touch d; d = c; c = touch(); CHECK(c.begin() == c.end()); walk(d, e); to.reset(); walk(d, e); touch f(d); d = touch(); walk(f, e); }
    else { int h2 = vh::rnd(N); c.set_head(v[h2].p); CV e2 = expand(v, h2); if (e2.size() < 400) { INPUT("copy with head " << show(v, h2)); walk(c, e2); } walk(*to, e); touch_changes *nw = new touch_changes; nw->push_back(rndch(b)); c.push_back(nw); c.set_head(nw); walk(c, CV(1, *nw->begin())); walk(*to, e); to.reset(); walk(c, CV(1, *nw->begin())); }
  }
}
SECTION("C22", "small trees exhaustively") {
  CV base; base.push_back(change(4, "X")); base.push_back(change(4, "14")); base.push_back(change(4, "12"));
  for (int n1 = 0; n1 < 3; ++n1) for (int n2 = 0; n2 < 3; ++n2) for (int a = 0; a < 4; ++a) for (int b = 0; b < 4; ++b) for (int c = 0; c < 4; ++c) for (int deep = 0; deep < 4; ++deep) {
    CV A(base.begin(), base.begin() + n1), B(base.begin(), base.begin() + n2), e, I; touch_changes ta(A), tb(B.begin(), B.end()); touch_child_list in, out; in.push_back(a, &ta); in.push_back(b, &tb); auto add = [](CV &x, const CV &y, int n) { while (n-- > 0) x.insert(x.end(), y.begin(), y.end()); }; add(I, A, a); add(I, B, b);
    INPUT(a << " of " << n1 << " changes, " << b << " of " << n2 << ", repeated " << c << ", form " << deep); if (deep & 1) { out.push_back(1, &tb); add(e, B, 1); } out.push_back(c, &in); add(e, I, c); if (deep & 2) { out.push_back(2, &ta); add(e, A, 2); } walk(in, I); walk(out, e);
  }
  touch_changes t("X.14.X.14,12", 4); CV e; for (const char *p : {"X", "14", "X", "14", "X", "14", "X", "12"}) e.push_back(change(4, p)); INPUT("touch_changes(X.14.X.14,12)"); CV g; for (touch_node::const_iterator i = t.begin(); i != t.end(); ++i) g.push_back(*i); touch_changes u(string("&x.14.x.14,12"), 4); walk(u, e);
}
// ------------------------------------------------------------------ pointers
struct Obj {
  static std::set<const Obj *> &live() { static std::set<const Obj *> s; return s; }
  static int &dead() { static int d = 0; return d; } static int &clones() { static int d = 0; return d; } static int &arm() { static int d = 0; return d; }
  int v; explicit Obj(int v) : v(v) { live().insert(this); } Obj(const Obj &o) : v(o.v) { live().insert(this); }
  virtual ~Obj() { ++vh::checks(); if (!live().erase(this)) vh::fail(__LINE__, "an object is destroyed once", ""); ++dead(); v = -999; }
  virtual Obj *clone() const { if (arm() && !--arm()) throw std::bad_alloc(); ++clones(); return new Obj(*this); }
  virtual int kind() const { return 0; }
};
struct Der : Obj { explicit Der(int v) : Obj(v) {} Der *clone() const { if (arm() && !--arm()) throw std::bad_alloc(); ++clones(); return new Der(*this); } int kind() const { return 1; } };
static int custom = 0, customc = 0;
static void del(Obj *&p) { ++custom; delete p; p = 0; }
static Obj *cln(Obj *p) { ++customc; return p->clone(); }
static Obj *mkobj(int v) { return vh::rnd(3) ? new Obj(v) : new Der(v); }
static void finish() { CHECKM(Obj::live().empty(), Obj::live().size() << " objects were never destroyed"); for (auto p : std::set<const Obj *>(Obj::live())) Obj::live().erase(p); }
SECTION("C24", "shared_pointer histories") {
  typedef shared_pointer<Obj> SP;
  for (int t = 0; t < (vh::thorough() ? 60000 : 8000); ++t) {
    const int K = 1 + vh::rnd(4); string log; INPUT("history" << log);
    { vector<std::unique_ptr<SP> > s(K); vector<Obj *> m(K); std::map<Obj *, bool> cust; int made = 0; int c0 = custom, d0 = Obj::dead(), expc = 0; std::set<Obj *> all; std::map<Obj *, int> val; for (auto &x : s) x.reset(new SP);
      auto settle = [&](const vector<Obj *> &before) { std::set<Obj *> now(m.begin(), m.end()); for (Obj *p : std::set<Obj *>(before.begin(), before.end())) if (p && !now.count(p)) { CHECKM(!Obj::live().count(p), "object with no owner left"); if (cust[p]) ++expc; all.erase(p); cust.erase(p); }
        for (Obj *p : all) { CHECKM(Obj::live().count(p), "object " << val[p] << " destroyed while it has an owner"); CHECK(p->v == val[p]); } CHECK(Obj::live().size() == all.size()); CHECK(Obj::dead() - d0 == made - (int)all.size()); CHECKM(custom - c0 == expc, "deletor called " << custom - c0 << " times, not " << expc);
        for (int i = 0; i < K; ++i) { CHECKM(s[i]->get() == m[i], "pointer " << i); CHECK(bool(*s[i]) == (m[i] != 0)); CHECK(!*s[i] == (m[i] == 0)); if (m[i]) { CHECK(&**s[i] == m[i]); CHECK((*s[i])->v == val[m[i]]); } for (int j = 0; j < K; ++j) { CHECK((*s[i] == *s[j]) == (m[i] == m[j])); CHECK((*s[i] != *s[j]) == (m[i] != m[j])); CHECK((*s[i] < *s[j]) == (m[i] < m[j])); CHECK((*s[i] > *s[j]) == (m[i] > m[j])); CHECK((*s[i] <= *s[j]) == (m[i] <= m[j])); CHECK((*s[i] >= *s[j]) == (m[i] >= m[j])); } } };
      for (int n = 0, L = 2 + vh::rnd(14); n < L; ++n) {
        int i = vh::rnd(K), j = vh::rnd(K), op = vh::rnd(9); vector<Obj *> before(m); auto fresh = [&](bool c) { Obj *o = mkobj(++made); all.insert(o); val[o] = made; cust[o] = c; return o; };
        log += " "; log += "nNar0sScd"[op]; log += std::to_string(i); if (op == 2 || op == 5 || op == 6) log += "," + std::to_string(j);
        switch (op) {
        case 0: m[i] = fresh(false); s[i].reset(new SP(m[i])); break;
        case 1: m[i] = fresh(true); s[i].reset(new SP(m[i], del)); break;
        case 2: *s[i] = *s[j]; m[i] = m[j]; break;
        case 3: m[i] = fresh(false); s[i]->reset(m[i]); break;
        case 4: s[i]->reset(); m[i] = 0; break;
        case 5: s[i]->swap(*s[j]); std::swap(m[i], m[j]); break;
        case 6: { std::unique_ptr<SP> x(new SP(*s[j])); s[i].swap(x); m[i] = m[j]; } break;
        case 7: { SP a(*s[i]), b(a), c; c = b; a = c; b = SP(); CHECK(c.get() == m[i] && a.get() == m[i] && !b); } break;
        case 8: s[i]->reset(m[i]); break;
        }
        settle(before);
      }
      vector<Obj *> before(m); for (int i = 0; i < K; ++i) { s[i].reset(new SP); m[i] = 0; settle(before); before = m; }
    }
    finish();
  }
}
SECTION("C24", "cloning_pointer histories") {
  typedef cloning_pointer<Obj> CP;
  for (int t = 0; t < (vh::thorough() ? 60000 : 8000); ++t) {
    const int K = 1 + vh::rnd(3); string log; INPUT("history" << log);
    { vector<std::unique_ptr<CP> > s(K); vector<int> m(K), kd(K); vector<bool> cu(K); int made = 0, c0 = custom, cc0 = customc, expc = 0, expcc = 0; for (auto &x : s) x.reset(new CP); std::set<Obj *> released;
      auto kill = [&](int i) { if (m[i] && cu[i]) ++expc; m[i] = 0; }; auto ck = [&] { std::set<const Obj *> ps; for (int i = 0; i < K; ++i) { const CP &c = *s[i]; CHECKM((c.get() != 0) == (m[i] != 0), "pointer " << i); CHECK(bool(c) == (m[i] != 0)); CHECK(!c == (m[i] == 0)); if (m[i]) { CHECKM(Obj::live().count(c.get()), "pointer " << i << " to a destroyed object"); CHECKM(ps.insert(c.get()).second, "pointer " << i << " shares its object"); CHECKM(c->v == m[i] && (*c).v == m[i] && (*s[i])->v == m[i] && (**s[i]).v == m[i] && s[i]->get() == c.get() && c->kind() == kd[i], "pointer " << i << " value " << c->v << " expected " << m[i]); } for (int j = 0; j < K; ++j) { CHECK((*s[i] == *s[j]) == (c.get() == ((const CP &)*s[j]).get())); CHECK((*s[i] < *s[j]) == (c.get() < ((const CP &)*s[j]).get())); CHECK((*s[i] != *s[j]) == (c.get() != ((const CP &)*s[j]).get())); } } CHECKM(Obj::live().size() == ps.size() + released.size(), Obj::live().size() << " objects alive"); CHECKM(custom - c0 >= expc, "deletor"); CHECKM(customc - cc0 == expcc, "cloner"); };
      for (int n = 0, L = 2 + vh::rnd(14); n < L; ++n) {
        int i = vh::rnd(K), j = vh::rnd(K), op = vh::rnd(10); log += " "; log += "nNar0sSmRx"[op]; log += std::to_string(i); if (op == 2 || op == 5 || op == 6 || op == 9) log += "," + std::to_string(j);
        switch (op) {
        case 0: { Obj *o = mkobj(++made); int k = o->kind(); s[i].reset(new CP(o)); kill(i); m[i] = made; kd[i] = k; cu[i] = false; } break;
        case 1: { Obj *o = mkobj(++made); int k = o->kind(); s[i].reset(new CP(o, del, cln)); kill(i); m[i] = made; kd[i] = k; cu[i] = true; } break;
        case 2: { int v = m[j], k = kd[j]; bool c = cu[j]; if (v && c) ++expcc; *s[i] = *s[j]; kill(i); m[i] = v; kd[i] = k; cu[i] = c; } break;
        case 3: { Obj *o = mkobj(++made); int k = o->kind(); s[i]->reset(o); kill(i); m[i] = made; kd[i] = k; cu[i] = false; } break;
        case 4: s[i]->reset(); kill(i); break;
        case 5: s[i]->swap(*s[j]); std::swap(m[i], m[j]); std::swap(kd[i], kd[j]); { bool x = cu[i]; cu[i] = cu[j]; cu[j] = x; } break;
        case 6: { int v = m[j], k = kd[j]; bool c = cu[j]; if (v && c) ++expcc; std::unique_ptr<CP> x(new CP(*s[j])); s[i].swap(x); x.reset(); kill(i); m[i] = v; kd[i] = k; cu[i] = c; } break;
        case 7: if (m[i]) { m[i] += 1000; if (vh::rnd(2)) (*s[i])->v += 1000; else (**s[i]).v += 1000; } break;
        case 8: { Obj *o = s[i]->release(); CHECK((o != 0) == (m[i] != 0)); m[i] = 0; CHECK(((const CP &)*s[i]).get() == 0); if (o) { CHECKM(Obj::live().count(o), "released object destroyed"); if (Obj::live().count(o)) delete o; } } break;
        case 9: if (m[j]) { Obj::arm() = 1; bool th = false; size_t live = Obj::live().size(); try { *s[i] = *s[j]; } catch (std::bad_alloc const &) { th = true; } CHECK(th); CHECK(Obj::live().size() == live); if (cu[j]) ++expcc; Obj::arm() = 0; } break;
        }
        ck();
      }
    }
    finish();
  }
}
SECTION("C24", "scoped_pointer histories") {
  typedef scoped_pointer<Obj> CP;
  for (int t = 0; t < (vh::thorough() ? 40000 : 6000); ++t) {
    string log; INPUT("history" << log); int made = 0, c0 = custom, expc = 0; Obj *m = 0; bool cu = false; std::unique_ptr<CP> s(new CP);
    auto kill = [&] { if (m) { CHECKM(!Obj::live().count(m), "object left"); if (cu) ++expc; } m = 0; cu = false; };
    for (int n = 0, L = 2 + vh::rnd(12); n < L; ++n) {
      int op = vh::rnd(6); log += " "; log += "nNr0Rd"[op]; Obj *o;
      switch (op) {
      case 0: o = mkobj(++made); s.reset(new CP(o)); kill(); m = o; break;
      case 1: o = mkobj(++made); s.reset(new CP(o, del)); kill(); m = o; cu = true; break;
      case 2: o = mkobj(++made); s->reset(o); kill(); m = o; break;
      case 3: s->reset(); kill(); break;
      case 4: o = s->release(); CHECK(o == m); if (o) { CHECKM(Obj::live().count(o), "released object destroyed"); if (Obj::live().count(o)) delete o; } m = 0; cu = false; break;
      case 5: s.reset(new CP); kill(); break;
      }
      CHECK(s->get() == m); CHECK(bool(*s) == (m != 0)); CHECK(!*s == !m); if (m) { CHECK(&**s == m && (*s)->v == made); } CHECK(Obj::live().size() == size_t(m != 0)); CHECKM(custom - c0 >= expc, "deletor");
    }
    s.reset(); finish();
  }
}
SECTION("C24", "cow_pointer histories") {
  typedef cow_pointer<Obj> CP;
  for (int t = 0; t < (vh::thorough() ? 60000 : 8000); ++t) {
    const int K = 1 + vh::rnd(4); string log; INPUT("history" << log);
    { vector<std::unique_ptr<CP> > s(K); vector<int> m(K), kd(K), grp(K); int made = 0, groups = 0; for (auto &x : s) x.reset(new CP);
      auto ck = [&] { std::map<int, const Obj *> g; std::set<const Obj *> ps; for (int i = 0; i < K; ++i) { const CP &c = *s[i]; CHECKM((c.get() != 0) == (m[i] != 0), "pointer " << i); CHECK(bool(c) == (m[i] != 0)); if (m[i]) { ps.insert(c.get()); CHECKM(Obj::live().count(c.get()), "pointer " << i << " to a destroyed object"); CHECKM(c->v == m[i] && (*c).v == m[i] && c->kind() == kd[i], "pointer " << i << " value " << c->v << " expected " << m[i]); if (g.count(grp[i])) CHECKM(g[grp[i]] == c.get(), "copy made needlessly"); else g[grp[i]] = c.get(); } } CHECKM(Obj::live().size() == ps.size(), Obj::live().size() << " objects alive"); CHECKM(ps.size() == g.size(), "object shared after a change"); };
      for (int n = 0, L = 2 + vh::rnd(14); n < L; ++n) {
        int i = vh::rnd(K), j = vh::rnd(K), op = vh::rnd(9); log += " "; log += "nar0sSmwd"[op]; log += std::to_string(i); if (op == 1 || op == 4 || op == 5) log += "," + std::to_string(j);
        switch (op) {
        case 0: { Obj *o = mkobj(++made); int k = o->kind(); s[i].reset(new CP(o)); m[i] = made; kd[i] = k; grp[i] = ++groups; } break;
        case 1: *s[i] = *s[j]; m[i] = m[j]; kd[i] = kd[j]; grp[i] = grp[j]; break;
        case 2: { Obj *o = mkobj(++made); kd[i] = o->kind(); s[i]->reset(o); m[i] = made; grp[i] = ++groups; } break;
        case 3: s[i]->reset(); m[i] = 0; break;
        case 4: s[i]->swap(*s[j]); std::swap(m[i], m[j]); std::swap(kd[i], kd[j]); std::swap(grp[i], grp[j]); break;
        case 5: { std::unique_ptr<CP> x(new CP(*s[j])); s[i].swap(x); m[i] = m[j]; kd[i] = kd[j]; grp[i] = grp[j]; } break;
        case 6: case 7: if (m[i]) { bool sh = false; for (int k = 0; k < K; ++k) if (k != i && m[k] && grp[k] == grp[i]) sh = true; int cl = Obj::clones(); if (op == 6) (*s[i])->v += 1000; else if (vh::rnd(2)) (**s[i]).v += 1000; else s[i]->get()->v += 1000; CHECK(Obj::clones() - cl == sh); m[i] += 1000; grp[i] = ++groups; } break;
        case 8: { CP a(*s[i]), b(a); b = a; a = b; a.reset(); CP c; c = b; c.clone(); } break;
        }
        ck();
      }
    }
    finish();
  }
}
