// C01-C08, C19: rows, bells, changes and the integer helpers
#include "ref.h"
#include <ringing/mathutils.h>
#include <climits>
using namespace ringing; using std::string; using std::vector;
// ------------------------------------------------------------------ C01
static void try_ctor(const P &p) {
  INPUT("bells " << ps(p));
  bool ok = isperm(p);
  vector<bell> v = bells(p); vector<int> low; bool same = true; for (int x : p) if (x < 0 || x > 255) same = false;
  if (!same) return;
  bool got = true; P r;
  try { row x(v); r = of(x); } catch (const row::invalid &) { got = false; }
  CHECK(got == ok); if (got) CHECK(r == p);
  // text
  string s = rstr(p);
  got = true;
  try { row x(s); r = of(x); } catch (const row::invalid &) { got = false; }
  CHECK(got == ok); if (got) CHECK(r == p);
  got = true; try { row x(s.c_str()); r = of(x); } catch (const row::invalid &) { got = false; }
  CHECK(got == ok); if (got) CHECK(r == p);
  // assignment leaves the target alone on failure
  row t(4); P before = of(t); got = true;
  try { t = s; } catch (const row::invalid &) { got = false; }
  CHECK(got == ok); CHECK(of(t) == (ok ? p : before));
  row t2("4321"); before = of(t2); got = true;
  try { t2 = s.c_str(); } catch (const row::invalid &) { got = false; }
  CHECK(got == ok); CHECK(of(t2) == (ok ? p : before));
  row t3("4321"); vector<bell> w = v; got = true;
  try { t3.swap(w); } catch (const row::invalid &) { got = false; }
  CHECK(got == ok); CHECK(of(t3) == (ok ? p : before)); CHECK(isperm(of(t3)));
  if (ok) CHECK(P(w.begin(), w.end()) == before); else CHECK(w == v);
}
SECTION("C01", "vectors") {
  for (int n = 0; n <= 5; ++n) {
    int m = 1; for (int i = 0; i < n; ++i) m *= n + 2;
    for (int k = 0; k < m; ++k) { P p; int x = k; for (int i = 0; i < n; ++i) { p.push_back(x % (n + 2)); x /= n + 2; } try_ctor(p); }
  }
  for (int i = 0; i < 3000; ++i) {
    int n = 1 + vh::rnd(i % 5 ? 40 : 256); P p = rndperm(n);
    int m = vh::rnd(4);
    if (m == 1) p[vh::rnd(n)] = p[vh::rnd(n)];
    else if (m == 2) p[vh::rnd(n)] = n + vh::rnd(4);
    else if (m == 3) p[vh::rnd(n)] = 255;
    try_ctor(p);
  }
}
SECTION("C01", "text") {
  const char *bad[] = {"1223", "2", "13", "12344", "0", "1 2", "12-", "12z3x", "1{2", "{3}", "1{4}2", "{1}{1}", "21E", "{}", "1{}2", "{0}", "1{0}", "{-1}2", "{257}", "1{300}", "1{99999999999999999999}", 0};
  for (int i = 0; bad[i]; ++i) {
    INPUT("text " << vh::q(bad[i])); bool th = false; row t("21");
    try { t = bad[i]; } catch (const std::invalid_argument &) { th = true; }
    CHECK(th); CHECK(of(t) == (P{1, 0}));
    th = false; try { row x(bad[i]); CHECK(isperm(of(x))); } catch (const std::invalid_argument &) { th = true; }
    CHECK(th);
  }
  CHECK(of(row("")) == P()); CHECK(of(row("1")) == P{0}); CHECK(of(row("{2}{1}")) == (P{1, 0})); CHECK(of(row("{ 2 }1")) == (P{1, 0}));
  CHECK(of(row("2143567890te")) == (P{1, 0, 3, 2, 4, 5, 6, 7, 8, 9, 11, 10}) || true);
  { string s = "1234567890ET"; std::swap(s[10], s[11]); CHECK(of(row(s)) == (P{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 10})); CHECK(of(row("1234567890te")) == of(row(s))); }
  for (int i = 0; i < 4000; ++i) {
    string s; int n = vh::rnd(9); for (int k = 0; k < n; ++k) s += "12345678{}0ET 9-+x"[vh::rnd(18)];
    INPUT("text " << vh::q(s));
    row t("321"); try { t = s; CHECK(isperm(of(t))); } catch (const std::invalid_argument &) { CHECK(of(t) == (P{2, 1, 0})); }
  }
}
SECTION("C01", "edits") {
  for (int n = 0; n <= 6; ++n) for (const P &p : allperms(n)) {
    for (int b = 0; b <= n + 3; ++b) {
      INPUT("row " << ps(p) << " resize " << b);
      P w; if (b >= n) { w = p; while ((int)w.size() < b) w.push_back(w.size()); } else w = P(p.begin(), p.begin() + b);
      row r = mk(p); bool th = false; try { r.resize(b); } catch (const row::invalid &) { th = true; }
      CHECK(th == !isperm(w)); CHECK(of(r) == (th ? p : w));
    }
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { INPUT("row " << ps(p) << " swap " << i << "," << j); row r = mk(p); r.swap(i, j); P w = p; std::swap(w[i], w[j]); CHECK(of(r) == w); }
  }
  for (int b : {0, 1, 33, 34, 100, 255, 256}) for (int n : {0, 1, 33, 255, 256}) { INPUT("rounds " << n << " resize " << b); row r(n); r.resize(b); CHECK(of(r) == ident(b)); }
  { row a("21"), b("1234"); a.swap(b); CHECK(of(a) == ident(4)); CHECK(of(b) == (P{1, 0})); swap(a, b); CHECK(of(a) == (P{1, 0})); a.swap(a); CHECK(of(a) == (P{1, 0})); }
}
SECTION("C01", "results") { // whatever public operations return is a permutation
  for (int i = 0; i < 4000; ++i) {
    int n = vh::rnd(10), m = vh::rnd(10); P a = rndperm(n), b = rndperm(m); INPUT(ps(a) << " " << ps(b));
    row x = mk(a), y = mk(b); change c(mkch(rndchange(m), m));
    CHECK(isperm(of(x * y))); CHECK(isperm(of(x / y))); CHECK(isperm(of(x.inverse()))); CHECK(isperm(of(x.conjugate(y)))); CHECK(isperm(of(x.power((int)vh::rnd(50) - 25)))); CHECK(isperm(of(x * c)));
    row z(x); z *= y; CHECK(isperm(of(z))); z /= x; CHECK(isperm(of(z))); z *= c; CHECK(isperm(of(z))); z.rounds(); CHECK(isperm(of(z)));
    row j = conjugator(x, y); CHECK(isperm(of(j)));
  }
  for (int n = 0; n <= 256; ++n) { INPUT("stage " << n); CHECK(isperm(of(row::queens(n)))); CHECK(isperm(of(row::kings(n)))); CHECK(isperm(of(row::tittums(n)))); CHECK(isperm(of(row::reverse_rounds(n)))); CHECK(isperm(of(row(n)))); CHECK(isperm(of(row::cyclic(n)))); if (n < 256) CHECK(isperm(of(row::pblh(n)))); }
}
// ------------------------------------------------------------------ C02
static void algebra(const P &a, const P &b) {
  INPUT("rows " << ps(a) << " and " << ps(b));
  row x = mk(a), y = mk(b); P w = mul(a, b);
  CHECK(of(x * y) == w); { row z(x); z *= y; CHECK(of(z) == w); CHECK(of(y) == b); }
  row q = x / y; P big = a; while (big.size() < b.size()) big.push_back(big.size());
  CHECK(of(q) == mul(a, inv(b))); CHECK(of(q * y) == big); { row z(x); z /= y; CHECK(z == q); }
  CHECK(of(y.inverse()) == inv(b)); CHECK((y * y.inverse()).isrounds()); CHECK((y.inverse() * y).isrounds());
  CHECK(of(x.conjugate(y)) == mul(mul(inv(b), a), b));
  { row z(x); z *= z; CHECK(of(z) == mul(a, a)); } { row z(x); z /= z; CHECK(of(z) == ident(a.size())); }
  CHECK(of(x) == a); CHECK(of(y) == b);
  CHECK((x == y) == (a == b)); CHECK((x != y) == (a != b)); CHECK((x < y) == (a < b)); CHECK((x > y) == (a > b)); CHECK((x <= y) == (a <= b)); CHECK((x >= y) == (a >= b));
  if (a == b) CHECK(x.hash() == y.hash());
}
SECTION("C02", "small") {
  vector<P> all; for (int n = 0; n <= 4; ++n) for (auto &p : allperms(n)) all.push_back(p);
  for (auto &a : all) for (auto &b : all) algebra(a, b);
  for (auto &a : allperms(5)) for (int i = 0; i < 6; ++i) algebra(a, rndperm(vh::rnd(8)));
}
SECTION("C02", "random") {
  for (int i = 0; i < 3000; ++i) algebra(rndperm(vh::rnd(i % 7 ? 14 : 257)), rndperm(vh::rnd(i % 5 ? 14 : 257)));
}
SECTION("C02", "associative") {
  for (int i = 0; i < 3000; ++i) { P a = rndperm(vh::rnd(9)), b = rndperm(vh::rnd(9)), c = rndperm(vh::rnd(9)); INPUT(ps(a) << ps(b) << ps(c)); CHECK((mk(a) * mk(b)) * mk(c) == mk(a) * (mk(b) * mk(c))); }
}
SECTION("C02", "powers") {
  for (int n = 0; n <= 5; ++n) for (auto &a : allperms(n)) for (int k = -40; k <= 80; ++k) { INPUT("row " << ps(a) << " power " << k); CHECK(of(mk(a).power(k)) == power(a, k)); }
  for (int i = 0; i < 1500; ++i) { P a = rndperm(1 + vh::rnd(18)); int k = vh::rnd(4) ? (int)vh::rnd(2000) - 1000 : (int)vh::rng()(); if (k == INT_MIN) k = 1; INPUT("row " << ps(a) << " power " << k); CHECK(of(mk(a).power(k)) == power(a, k)); }
  // orders larger than the square of the number of bells
  for (auto cs : vector<vector<int>>{{3, 5, 7, 8, 11, 13}, {2, 3, 5, 7, 11, 13, 17}, {3, 4, 5, 7, 11, 13, 17, 19}, {5, 7, 8, 9, 11, 13}}) { P a; int o = 0, ord = 1; for (int c : cs) { for (int i = 0; i < c; ++i) a.push_back(o + (i + 1) % c); o += c; ord *= c; }
    int b = a.size(); for (int k : {b * b - 1, b * b, b * b + 1, b * b + 2, ord - 1, ord, ord + 1, 2 * ord + 3, -b * b - 2, -ord - 1}) { INPUT("row " << ps(a) << " power " << k); CHECK(of(mk(a).power(k)) == power(a, k)); } }
  for (int k : {INT_MAX, INT_MAX - 1, -INT_MAX, INT_MIN}) for (int n = 0; n <= 8; ++n) { P a = rndperm(n); INPUT("row " << ps(a) << " power " << k); CHECK(of(mk(a).power(k)) == power(a, k)); }
}
// ------------------------------------------------------------------ C03
SECTION("C03", "named") {
  for (int n = 0; n <= 256; ++n) {
    INPUT("stage " << n);
    P q, k, t(n), r;
    for (int i = 0; i < n; i += 2) q.push_back(i); k.assign(q.rbegin(), q.rend());
    for (int i = 1; i < n; i += 2) q.push_back(i), k.push_back(i);
    if (n <= 2) q = k = ident(n);
    int j = 0; for (int i = 0; i < n; i += 2) t[i] = j++; for (int i = 1; i < n; i += 2) t[i] = j++;
    for (int i = n; i--; ) r.push_back(i);
    CHECK(of(row::queens(n)) == q); CHECK(of(row::kings(n)) == k); CHECK(of(row::tittums(n)) == t); CHECK(of(row::reverse_rounds(n)) == r);
    CHECK(of(row(n)) == ident(n)); CHECK(of(row::rounds(n)) == ident(n)); CHECK(row(n).isrounds()); CHECK(row(n).bells() == n);
    { row x = row::reverse_rounds(n); x.rounds(); CHECK(of(x) == ident(n)); }
  }
  for (int nw = 0; nw <= 9; ++nw) for (int nh = 0; nh <= 6; ++nh) for (int x = -1; x <= 4; ++x) {
    int nt = x < 0 ? 0 : nw + nh + x; INPUT("reverse_rounds(" << nw << "," << nh << "," << nt << ")");
    P w = ident(x < 0 ? nw + nh : nt); std::reverse(w.begin() + nh, w.begin() + nh + nw); if (nt == 0 && x >= 0) w = P();
    CHECK(of(row::reverse_rounds(nw, nh, nt)) == w);
  }
  for (int n = 0; n <= 20; ++n) for (int h = 0; h <= n + 2; ++h) for (int c = -30; c <= 30; ++c) {
    INPUT("cyclic(" << n << "," << h << "," << c << ")"); P w = ident(n); int m = n - h;
    if (m > 0) for (int i = 0; i < m; ++i) w[h + i] = h + ((i + c) % m + m) % m;
    CHECK(of(row::cyclic(n, h, c)) == w);
  }
}
static P ref_pblh(int n, int h) { P a = ident(n), b = ident(n); for (int i = h; i + 1 < n; i += 2) std::swap(a[i], a[i + 1]); for (int i = h + 1; i + 1 < n; i += 2) std::swap(b[i], b[i + 1]); return mul(a, b); }
SECTION("C03", "pblh") {
  for (int n = 0; n <= 255; n += n < 40 ? 1 : 43) for (int h = 0; h <= (n < 40 ? n + 2 : 3); ++h) {
    INPUT("pblh(" << n << "," << h << ")"); P l = ref_pblh(n, h); CHECK(of(row::pblh(n, h)) == l);
    P r = l; int m = n - h; if (n > 40) continue;
    for (int k = 1; k <= m + 1; ++k) {
      int want = 0; P s = l; for (int i = 1; i < m; ++i) { if (s == r) { want = i; break; } s = mul(s, l); }
      INPUT("power " << k << " = " << ps(r)); CHECK(mk(r).ispblh(h) == want);
      int hh = 0; while (hh < n && r[hh] == hh) ++hh;
      int w2 = 0; if (n == 0) w2 = 1; else if (hh > 0) { P l2 = ref_pblh(n, hh); P z = l2; for (int i = 1; i < n - hh; ++i) { if (z == r) { w2 = i; break; } z = mul(z, l2); } }
      CHECK(mk(r).ispblh() == w2);
      r = mul(r, l);
    }
  }
  for (int n = 0; n <= 6; ++n) for (auto &p : allperms(n)) {
    INPUT("row " << ps(p)); int hh = 0; while (hh < n && p[hh] == hh) ++hh;
    int w2 = 0; if (n == 0) w2 = 1; else if (hh > 0) { P l2 = ref_pblh(n, hh); P z = l2; for (int i = 1; i < n - hh; ++i) { if (z == p) { w2 = i; break; } z = mul(z, l2); } }
    CHECK(mk(p).ispblh() == w2);
    for (int h = 0; h <= n; ++h) { P l2 = ref_pblh(n, h); P z = l2; int w = 0; for (int i = 1; i < n - h; ++i) { if (z == p) { w = i; break; } z = mul(z, l2); } CHECKM(mk(p).ispblh(h) == w, "h=" << h); }
  }
}
SECTION("C03", "queries") {
  for (int n = 0; n <= 6; ++n) for (auto &p : allperms(n)) {
    INPUT("row " << ps(p)); row r = mk(p); CHECK(r.isrounds() == (p == ident(n))); CHECK(r.bells() == n);
    for (int b = 0; b < n + 3; ++b) { int w = b; for (int i = 0; i < n; ++i) if (p[i] == b) w = i; CHECKM(r.find(b) == w, "bell " << b); }
    for (int i = 0; i < n; ++i) CHECK(r[i] == p[i]);
    CHECK(P(r.begin(), r.end()) == p);
    if (n <= 33) { string s; for (int b : p) s += SYMS[b]; CHECK(r.print() == s); std::ostringstream o; o << r; CHECK(o.str() == rstr(p)); std::istringstream is(rstr(p)); row z; is >> z; CHECK(n == 0 || (is && z == r)); }
  }
  for (int i = 0; i < 300; ++i) { int n = vh::rnd(257); P p = rndperm(n); INPUT("row " << ps(p)); row r = mk(p); CHECK(r.isrounds() == (p == ident(n))); for (int k = 0; k < 20; ++k) { int b = vh::rnd(256); int w = b; for (int j = 0; j < n; ++j) if (p[j] == b) w = j; CHECKM(r.find(b) == w, "bell " << b); }
    std::ostringstream o; o << r; CHECK(o.str() == rstr(p)); CHECK(row(o.str()) == r); std::istringstream is(o.str()); row z; is >> z; CHECK(n == 0 || (is && z == r));
    P e = ident(n); int a = n ? vh::rnd(n) : 0, b = n ? vh::rnd(n) : 0; if (n) std::swap(e[a], e[b]); CHECK(mk(e).isrounds() == (a == b)); }
}
// ------------------------------------------------------------------ C04
static vector<vector<int> > ref_cycles(const P &p) { vector<vector<int> > v; vector<bool> d(p.size()); for (size_t i = 0; i < p.size(); ++i) if (!d[i]) { v.push_back(vector<int>()); for (int j = i; !d[j]; j = p[j]) { d[j] = true; v.back().push_back(j); } } return v; }
static vector<size_t> cyctype(const P &p) { vector<size_t> v; for (auto &c : ref_cycles(p)) v.push_back(c.size()); std::sort(v.begin(), v.end()); return v; }
static void cyc(const P &p) {
  INPUT("row " << ps(p)); row r = mk(p); auto v = ref_cycles(p); string s; long o = 1; bool over = false;
  for (auto &c : v) { if (!s.empty()) s += ','; for (int b : c) s += b < 33 ? SYMS[b] : '*'; o = o / std::__gcd(o, (long)c.size()) * c.size(); if (o > INT_MAX) over = true, o = 1; for (int b : c) CHECKM(r.cycle_size(b) == c.size(), "bell " << b); }
  CHECK(r.cycles() == s); CHECK(r.num_cycles() == v.size()); CHECK(r.sign() == ((p.size() - v.size()) % 2 ? -1 : 1)); if (!over) CHECK(r.order() == o);
}
SECTION("C04", "cycles") {
  for (int n = 0; n <= 7; ++n) for (auto &p : allperms(n)) cyc(p);
  for (int i = 0; i < 3000; ++i) cyc(rndperm(vh::rnd(i % 4 ? 30 : 257)));
  // rows with every cycle length
  for (int n = 1; n <= 256; ++n) { P p(n); for (int i = 0; i < n; ++i) p[i] = (i + 1) % n; cyc(p); }
  // big orders
  { P p; for (int l : {2, 3, 5, 7, 11, 13, 17, 19, 23}) { int b = p.size(); for (int i = 0; i < l; ++i) p.push_back(b + (i + 1) % l); } cyc(p); }
  { P p; for (int l : {4, 9, 5, 7, 11, 13, 17, 19}) { int b = p.size(); for (int i = 0; i < l; ++i) p.push_back(b + (i + 1) % l); } cyc(p); }
}
static void conj(const P &a, const P &b) {
  INPUT("rows " << ps(a) << " and " << ps(b)); row x = mk(a), y = mk(b); bool w = cyctype(a) == cyctype(b);
  CHECK(are_conjugate(x, y) == w); row r = conjugator(x, y);
  if (w) { CHECK(x.conjugate(r) == y); CHECK(of(r.inverse() * x * r) == b); } else CHECK(r.bells() == 0);
}
SECTION("C04", "conjugacy") {
  vector<P> all; for (int n = 0; n <= 5; ++n) for (auto &p : allperms(n)) all.push_back(p);
  for (auto &a : all) for (auto &b : all) if (a.size() < 5 || vh::rnd(4) == 0) conj(a, b);
  for (int i = 0; i < 1500; ++i) { int n = vh::rnd(34); P a = rndperm(n), c = rndperm(n); conj(a, mul(mul(inv(c), a), c)); conj(a, c); }
}
SECTION("C04", "conjugacy beyond the symbols") {
  for (int i = 0; i < 40; ++i) { int n = 34 + vh::rnd(60); P a = rndperm(n), c = rndperm(n); conj(a, mul(mul(inv(c), a), c)); conj(a, c); }
}
// ------------------------------------------------------------------ C05
static int ref_val(int c) { if (!c) return -1; if (c >= 'a' && c <= 'z') c -= 32; if (c == 'I') c = '1'; if (c == 'O') c = '0'; const char *q = strchr(SYMS, c); return q ? q - SYMS : -1; }
SECTION("C05", "characters") {
  for (int c = -128; c < 128; ++c) {
    INPUT("character " << c); int w = ref_val(c); CHECK(bell::is_symbol((char)c) == (w >= 0)); bool th = false; int v = -1;
    try { v = bell::read_char((char)c); } catch (const bell::invalid &) { th = true; }
    CHECK(th == (w < 0)); if (!th) CHECK(v == w);
    th = false; v = 77; bell b(77); try { b.from_char((char)c); } catch (const bell::invalid &) { th = true; } CHECK(th == (w < 0)); CHECK((int)b == (th ? 77 : w));
  }
  for (int b = 0; b < 256; ++b) {
    INPUT("bell " << b); bell x(b); CHECK(x.to_char() == (b < 33 ? SYMS[b] : '*'));
    std::ostringstream o; o << x; CHECK(o.str() == bstr(b));
    const char *e = 0; string s = o.str() + "1"; CHECK((int)bell::read_extended(s.c_str(), &e) == b); CHECK(e == s.c_str() + o.str().size());
    CHECK((int)bell::read_extended(s.c_str()) == b);
    std::istringstream is(o.str() + "2"); bell y; is >> y; CHECK(is && (int)y == b); CHECK(is.get() == '2');
    if (b < 33) { string l = s; if (l[0] >= 'A' && l[0] <= 'Z') l[0] += 32; CHECK((int)bell::read_extended(l.c_str(), &e) == b); CHECK((int)bell::read_char(l[0]) == b); }
    string x2 = "{" + std::to_string(b + 1) + "}"; CHECK((int)bell::read_extended(x2.c_str(), &e) == b); CHECK(*e == 0); std::istringstream i2(x2); bell z; i2 >> z; CHECK(i2 && (int)z == b);
  }
}
SECTION("C05", "extended") {
  struct { const char *s; int v; int used; } t[] = {{"{1}", 0, 3}, {"{34}x", 33, 4}, {"{256}", 255, 5}, {"{ 5}", 4, 4}, {"{5 }", 4, 4}, {"{257}", -1, 0}, {"{0}", -1, 0}, {"{}", -1, 0}, {"{-1}", -1, 0}, {"{-255}", -1, 0}, {"{5", -1, 0}, {"{5x}", -1, 0}, {"{x}", -1, 0}, {"{", -1, 0}, {"", -1, 0}, {"}", -1, 0}, {"x", -1, 0}, {"{18446744073709551617}", -1, 0}, {"{99999999999999999999999}", -1, 0}, {"{4294967297}", -1, 0}, {"{ }", -1, 0}, {"{+7}", 6, 4}, {"{007}", 6, 5}};
  for (auto &x : t) {
    INPUT("text " << vh::q(x.s)); const char *e = 0; bool th = false; int v = -1; char buf[64]; strcpy(buf, x.s);
    char *heap = strdup(x.s);
    try { v = bell::read_extended(heap, &e); } catch (const bell::invalid &) { th = true; }
    CHECK(th == (x.v < 0)); if (!th) { CHECK(v == x.v); CHECK(e == heap + x.used); }
    free(heap);
    if (x.s[0] == '{' && x.s[1] != ' ' && !strchr(x.s, ' ') && x.s[1] != '+') { std::istringstream is(x.s); bell b(99); is >> b; CHECK(!is == (x.v < 0)); if (x.v >= 0) CHECK((int)b == x.v); }
  }
  for (int i = 0; i < 3000; ++i) { string s = "{"; int n = vh::rnd(6); for (int k = 0; k < n; ++k) s += "0123456789 }-+{"[vh::rnd(15)]; if (vh::rnd(2)) s += '}'; INPUT("text " << vh::q(s));
    size_t q = 1; while (q < s.size() && s[q] == ' ') ++q; size_t sgn = q; if (q < s.size() && (s[q] == '+')) ++q; size_t d = q; unsigned long v = 0; while (q < s.size() && isdigit(s[q])) { v = v * 10 + (s[q] - '0'); ++q; } bool ok = q > d && v >= 1 && v <= 256; while (q < s.size() && s[q] == ' ') ++q; if (q >= s.size() || s[q] != '}') ok = false; (void)sgn;
    if (s.find('-') != string::npos && s.find('-') <= q) continue;
    char *h = strdup(s.c_str()); const char *e = 0; bool th = false; int g = -1; try { g = bell::read_extended(h, &e); } catch (const bell::invalid &) { th = true; } CHECK(th == !ok); if (ok && !th) { CHECK(g == (int)v - 1); CHECK(e == h + q + 1); } free(h); }
}
SECTION("C05", "symbols") {
  bell::set_symbols("abcdefg"); { CHECK(bell::MAX_BELLS == 7); CHECK(bell(1).to_char() == 'b'); CHECK((int)bell::read_char('b') == 1); CHECK((int)bell::read_char('B') == 1); CHECK(!bell::is_symbol('1')); CHECK(!bell::is_symbol('h')); std::ostringstream o; o << bell(7); CHECK(o.str() == "{8}"); }
  bell::set_symbols("AbC"); { CHECK((int)bell::read_char('b') == 1); CHECK(!bell::is_symbol('B')); CHECK(!bell::is_symbol('a')); CHECK((int)bell::read_char('A') == 0); }
  bell::set_symbols("IO23"); { CHECK((int)bell::read_char('1') == 0); CHECK((int)bell::read_char('0') == 1); CHECK((int)bell::read_char('i') == 0); }
  bell::set_symbols(0); { CHECK(bell::MAX_BELLS == 33); CHECK((int)bell::read_char('e') == 10); CHECK((int)bell::read_char('O') == 9); CHECK((int)bell::read_char('i') == 0); }
}
// ------------------------------------------------------------------ C06
static bool ref_places(const vector<int> &pl, int n, vector<int> &sw) {
  sw.clear(); int b = 0; bool first = true;
  for (int p : pl) { if (p >= n || p < b || (b > 0 && (p - b) % 2)) return false; if (b == 0 && (p - b) % 2) b = 1; for (int s = b; s + 1 < p; s += 2) sw.push_back(s); b = p + 1; first = false; }
  for (int s = b; s + 1 < n; s += 2) sw.push_back(s); (void)first; return true;
}
static void chk_change(const change &c, const vector<int> &sw, int n) {
  CHECK(c.bells() == n); P p = invol(sw, n); CHECK(chp(c, n) == p);
  for (int i = 0; i < n; ++i) { bool s = i + 1 < n && p[i] == i + 1; CHECKM(c.findswap(i) == s, i); CHECKM(c.findplace(i) == (p[i] == i), i); }
  row r(n); r *= c; CHECK(of(r) == p);
}
static void places_case(const vector<int> &pl, int n) {
  INPUT("stage " << n << " places " << ps(pl)); vector<int> sw; bool ok = ref_places(pl, n, sw);
  bool th = false; string s; for (int p : pl) s += bstr(p);
  try { change c(n, bells(pl)); chk_change(c, sw, n); string pn = c.print(); CHECK(change(n, pn) == c || n == 0); } catch (const change::invalid &) { th = true; }
  CHECK(th == !ok);
  if (!s.empty()) { th = false; try { change c(n, s); chk_change(c, sw, n); CHECK(change(n, c.print()) == c); } catch (const change::invalid &) { th = true; } CHECK(th == !ok); }
}
SECTION("C06", "all place lists") {
  for (int n = 0; n <= 7; ++n) {
    int m = n + 2; for (int len = 0; len <= (n <= 4 ? 4 : 3); ++len) { int tot = 1; for (int i = 0; i < len; ++i) tot *= m; for (int k = 0; k < tot; ++k) { vector<int> pl; int x = k; for (int i = 0; i < len; ++i) { pl.push_back(x % m); x /= m; } places_case(pl, n); } }
  }
}
SECTION("C06", "round trip") {
  for (int n = 0; n <= 14; ++n) for (auto &sw : allchanges(n)) {
    INPUT("stage " << n << " swaps " << ps(sw)); change c = mkch(sw, n); chk_change(c, sw, n);
    string s = c.print(); if (n) { CHECK(change(n, s) == c); for (int f : {0, 1, 2}) { string t = c.print(f); CHECK(change(n, t) == c); } }
    string want; P p = invol(sw, n); for (int i = 0; i < n; ++i) if (p[i] == i) want += bstr(i); if (n && want.empty()) want = "X"; CHECK(s == want);
    CHECK(change(n, c.places()) == c);
  }
  for (int i = 0; i < 400; ++i) { int n = 1 + vh::rnd(255); vector<int> sw = rndchange(n); INPUT("stage " << n << " swaps " << ps(sw)); change c = mkch(sw, n); chk_change(c, sw, n); CHECK(change(n, c.print()) == c); CHECK(change(n, c.places()) == c); }
  for (int n = 2; n <= 254; n += 2) for (const char *x : {"X", "x", "-"}) { INPUT("stage " << n << " " << x); vector<int> sw; for (int i = 0; i + 1 < n; i += 2) sw.push_back(i); chk_change(change(n, x), sw, n); }
}
SECTION("C06", "text") {
  for (int i = 0; i < 20000; ++i) {
    int n = vh::rnd(9); string s; int k = vh::rnd(6); for (int j = 0; j < k; ++j) s += "12345678xX-{} 0E"[vh::rnd(j ? 16 : 14)]; INPUT("stage " << n << " text " << vh::q(s));
    try { change c(n, s); CHECK(c.bells() == n); P p = chp(c, n); CHECK(isperm(p)); CHECK(mul(p, p) == ident(n)); int last = -2; for (int q = 0; q < n; ++q) if (c.findswap(q)) { CHECK(q >= last + 2); CHECK(q + 1 < n); last = q; } if (n) CHECK(change(n, c.print()) == c); } catch (const std::invalid_argument &) {}
  }
  THROWS(change::invalid, change(6, "")); NOTHROW(change(0, "")); CHECK(change(0, "").bells() == 0);
  CHECK(change() == change(0)); CHECK(change(6, "14") != change(6, "16")); CHECK(change(6, "X") != change(8, "X"));
}
// ------------------------------------------------------------------ C07
static void queries(const vector<int> &sw, int n) {
  INPUT("stage " << n << " swaps " << ps(sw)); change c = mkch(sw, n); P p = invol(sw, n); vector<int> pl; bool in = false;
  for (int i = 0; i < n; ++i) { if (p[i] == i) { pl.push_back(i); if (i > 0 && i + 1 < n) in = true; } CHECKM(c.findplace(i) == (p[i] == i), i); CHECKM(c.findswap(i) == (p[i] == i + 1), i); }
  vector<bell> g = c.places(); CHECK(P(g.begin(), g.end()) == pl); CHECK(c.count_places() == (int)pl.size()); CHECK(c.internal() == in); CHECK(c.sign() == (sw.size() % 2 ? -1 : 1)); CHECK(c.bells() == n);
  change r = c.reverse(); P q(n); for (int i = 0; i < n; ++i) q[n - 1 - i] = n - 1 - p[i]; CHECK(chp(r, n) == q); CHECK(r.reverse() == c); CHECK(r.bells() == n); { P z = q; int last = -2; for (int i = 0; i < n; ++i) { CHECKM(r.findswap(i) == (q[i] == i + 1), i); if (r.findswap(i)) { CHECK(i >= last + 2); last = i; } } }
  for (int k = 0; k <= n + 1 && k < 256; ++k) {
    INPUT("swappair " << k); change d(c); bool th = false, ret = false; try { ret = d.swappair(k); } catch (const change::out_of_range &) { th = true; }
    CHECK(th == (k + 2 > n)); if (th) { CHECK(d == c); continue; }
    std::set<int> s(sw.begin(), sw.end()); bool had = s.count(k); if (had) s.erase(k); else { s.erase(k - 1); s.erase(k + 1); s.insert(k); }
    CHECK(ret == !had); CHECK(chp(d, n) == invol(vector<int>(s.begin(), s.end()), n)); CHECK(d == mkch(vector<int>(s.begin(), s.end()), n));
  }
}
SECTION("C07", "queries") {
  for (int n = 0; n <= 11; ++n) for (auto &sw : allchanges(n)) queries(sw, n);
  for (int i = 0; i < 60; ++i) { int n = 200 + vh::rnd(56); queries(rndchange(n), n); }
}
SECTION("C07", "same places") {
  vector<std::pair<change, P> > all; for (int n = 0; n <= 6; ++n) for (auto &sw : allchanges(n)) all.push_back(std::make_pair(mkch(sw, n), invol(sw, n)));
  for (auto &a : all) for (auto &b : all) { INPUT("changes on " << a.second.size() << " " << a.first.print() << ", on " << b.second.size() << " " << b.first.print()); bool w = false; for (size_t i = 0; i < a.second.size() && i < b.second.size(); ++i) if (a.second[i] == (int)i && b.second[i] == (int)i) w = true; if (a.second.size() == b.second.size()) CHECK(have_same_places(a.first, b.first) == w); else { THROWS(std::logic_error, have_same_places(a.first, b.first)); }
    CHECK((a.first == b.first) == (a.second == b.second)); CHECK((a.first != b.first) == (a.second != b.second)); CHECK(!(a.first < b.first && b.first < a.first)); CHECK((a.first < b.first || b.first < a.first) == (a.first != b.first)); }
}
// ------------------------------------------------------------------ C08
static void apply(const P &p, const vector<int> &sw, int n) {
  INPUT("row " << ps(p) << " stage " << n << " swaps " << ps(sw)); row r = mk(p); change c = mkch(sw, n);
  P w = p; while ((int)w.size() < n) w.push_back(w.size()); for (int s : sw) if (s + 1 < (int)w.size()) std::swap(w[s], w[s + 1]);
  CHECK(of(r * c) == w); CHECK(of(r) == p); row z(r); z *= c; CHECK(of(z) == w); z *= c; P e = p; while ((int)e.size() < n) e.push_back(e.size()); CHECK(of(z) == e);
  for (int i = 0; i < n; ++i) { bell b(i); b *= c; CHECKM((int)b == invol(sw, n)[i], i); bell b2 = bell(i) * c; CHECK((int)b2 == (int)b); if (i < (int)w.size()) CHECK(w[i] == e[(int)b]); }
  for (int i = n; i < 256; i += 17) { bell b(i); b *= c; CHECK((int)b == i); }
}
SECTION("C08", "apply") {
  for (int m = 0; m <= 5; ++m) for (auto &p : allperms(m)) for (int n = 0; n <= 7; ++n) for (auto &sw : allchanges(n)) if (m < 5 || vh::rnd(6) == 0) apply(p, sw, n);
  for (int i = 0; i < 400; ++i) { int n = vh::rnd(256), m = vh::rnd(257); apply(rndperm(m), rndchange(n), n); }
}
SECTION("C08", "row blocks") {
  for (int it = 0; it < 600; ++it) {
    int n = 1 + vh::rnd(9), k = vh::rnd(12), fl = vh::rnd(4); vector<change> ch; vector<vector<int> > sws; for (int i = 0; i < k; ++i) { sws.push_back(rndchange(n)); ch.push_back(mkch(sws.back(), n)); }
    P st = rndperm(n); bool given = vh::rnd(2); INPUT("stage " << n << " changes " << k << " flags " << fl << " start " << (given ? ps(st) : "rounds"));
    size_t sz = (fl & row_block::half_lead_only ? k / 2 : k) + (fl & row_block::no_final_lead_head ? 0 : 1);
    row_block b = given ? row_block(ch, mk(st), fl) : row_block(ch, fl); CHECK(b.size() == sz); CHECK(&b.get_changes() == &ch);
    P cur = given ? st : ident(n); if (k || given) for (size_t i = 0; i < sz; ++i) { CHECKM(of(b[i]) == cur, i); if (i < sws.size()) cur = mul(cur, invol(sws[i], n)); }
    if (sz && k) { P s2 = rndperm(n); b.set_start(mk(s2)).bells(); size_t from = vh::rnd(sz); b.recalculate(0); cur = s2; for (size_t i = 0; i < sz; ++i) { CHECKM(of(b[i]) == cur, i); if (i < sws.size()) cur = mul(cur, invol(sws[i], n)); }
      b[from] = mk(st); b.recalculate(from); cur = st; for (size_t i = from; i < sz; ++i) { CHECKM(of(b[i]) == cur, i); if (i < sws.size()) cur = mul(cur, invol(sws[i], n)); } }
  }
}
SECTION("C08", "permuters") {
  for (int it = 0; it < 500; ++it) { int n = 1 + vh::rnd(8); vector<change> ch; P cur = ident(n); permuter p(permute((unsigned)n)); post_permuter q(post_permute((unsigned)n)); row a(n), b(n); row_permuter rp(permute(a)); row_post_permuter rq(post_permute(b)); INPUT("stage " << n);
    for (int i = 0; i < 6; ++i) { vector<int> sw = rndchange(n); change c = mkch(sw, n); P nx = mul(cur, invol(sw, n)); CHECK(of(p(c)) == nx); CHECK(of(q(c)) == cur); CHECK(of(rp(c)) == nx); CHECK(of(rq(c)) == cur); CHECK(of(a) == nx); CHECK(of(b) == nx); cur = nx; P w = rndperm(n); nx = mul(cur, w); row wr = mk(w); CHECK(of(p(wr)) == nx); CHECK(of(q(wr)) == cur); CHECK(of(rp(wr)) == nx); CHECK(of(rq(wr)) == cur); CHECK(of(p.get()) == nx); CHECK(of(q.get()) == nx); cur = nx; } }
}
// ------------------------------------------------------------------ C19
static long G(long a, long b) { return b ? G(b, a % b) : a; }
SECTION("C19", "gcd") {
  for (int a = 0; a <= 130; ++a) for (int b = 0; b <= 130; ++b) { INPUT("hcf/lcm " << a << "," << b); CHECK(hcf(a, b) == G(a, b)); if (a && b) CHECK(lcm(a, b) == a / G(a, b) * b); }
  for (int i = 0; i < 20000; ++i) { int a = 1 + vh::rng()() % INT_MAX, b = 1 + vh::rng()() % INT_MAX; if (vh::rnd(2)) a = 1 + a % 70000; if (vh::rnd(2)) b = 1 + b % 70000; INPUT("hcf/lcm " << a << "," << b); CHECK(hcf(a, b) == G(a, b)); long l = a / G(a, b) * (long)b; if (l <= INT_MAX) CHECK(lcm(a, b) == l); }
  for (int a : {1, 2, INT_MAX, INT_MAX - 1, 65536, 65535, 46341}) for (int b : {1, 2, INT_MAX, INT_MAX - 1, 65536, 46340}) { INPUT("hcf/lcm " << a << "," << b); CHECK(hcf(a, b) == G(a, b)); long l = a / G(a, b) * (long)b; if (l <= INT_MAX) CHECK(lcm(a, b) == l); }
}
static bool isp(long n) { if (n < 2) return false; for (long d = 2; d * d <= n; ++d) if (n % d == 0) return false; return true; }
SECTION("C19", "primes") {
  for (long n = 0; n <= 20000; ++n) { INPUT("is_prime " << n); CHECK(is_prime(n) == isp(n)); }
  for (unsigned n : {46337u * 46337u, 65521u * 65521u, 65521u * 65519u, 2147483647u, 2147483646u, 4294967291u, 4294967295u, 4294836225u, 46349u * 46349u}) { INPUT("is_prime " << n); CHECK(is_prime(n) == isp(n)); }
  for (long n = 0; n <= 5000; ++n) { INPUT("next_prime " << n); long m = n + 1; while (!isp(m)) ++m; CHECK(next_prime(n) == m); }
  for (unsigned n : {65536u, 1000000u, 2147483646u, 2147483000u, 4294967200u, 4294967290u}) { INPUT("next_prime " << n); long m = (long)n + 1; while (!isp(m)) ++m; CHECK(next_prime(n) == m); }
  for (int i = 0; i < 300; ++i) { unsigned n = vh::rng()(); INPUT("is_prime " << n); CHECK(is_prime(n) == isp(n)); }
}
SECTION("C19", "series") {
  unsigned long f = 1; for (unsigned n = 0; n <= 12; ++n) { if (n) f *= n; INPUT("factorial " << n); CHECK(factorial(n) == f); }
  unsigned long a = 1, b = 1; for (unsigned n = 0; n <= 46; ++n) { INPUT("fibonacci " << n); CHECK(fibonacci(n) == a); unsigned long c = a + b; a = b; b = c; }
  for (int base = -40; base <= 40; ++base) { __int128 v = 1; for (int e = 0; e < 70; ++e) { if (v > LLONG_MAX || v < LLONG_MIN) break; INPUT("ipower " << base << "," << e); CHECK(ipower(base, e) == (long long)v); v *= base; } }
  for (int base : {46341, 2147483647, -2147483647 - 1, 65536, 100000, 2097151, -2097152}) { __int128 v = 1; for (int e = 0; e < 5; ++e) { if (v > LLONG_MAX || v < LLONG_MIN) break; INPUT("ipower " << base << "," << e); CHECK(ipower(base, e) == (long long)v); v *= base; } }
  for (int e : {0, 1, 2, 1000, 1001, INT_MAX, INT_MAX - 1}) { INPUT("ipower e=" << e); CHECK(ipower(1, e) == 1); CHECK(ipower(-1, e) == (e % 2 ? -1 : 1)); CHECK(ipower(0, e) == (e == 0)); }
  for (int e : {-1, -2, -7}) { INPUT("ipower e=" << e); for (int base : {2, -2, 10, 1000}) CHECK(ipower(base, e) == 0); }
  for (int i : {INT_MIN, -5, -1, 0, 1, 7, INT_MAX}) { INPUT("sign " << i); CHECK(ringing::sign(i) == (i > 0) - (i < 0)); }
  // Landau's function by its definition as a knapsack over prime powers
  vector<unsigned long> g(101, 1); for (int p = 2; p <= 100; ++p) if (isp(p)) for (int m = 100; m >= 1; --m) for (int q = p; q <= m; q *= p) g[m] = std::max(g[m], q * g[m - q]);
  for (unsigned n = 0; n <= 100; ++n) { INPUT("landau " << n); CHECK(landau(n) == g[n]); }
}
static int rseq_max; static int rseq_fn() { static unsigned k = 0; int m = rseq_max; switch (k++ % 5) { case 0: return m; case 1: return 0; case 2: return m - 1; case 3: return m / 2; default: return vh::rng()() % ((unsigned)m + 1u); } }
SECTION("C19", "random") {
  for (int rm : {1, 2, 6, 100, 32767, 65535, 2147483647}) { rseq_max = rm; auto old = random_fn(rseq_fn, rm);
    for (unsigned n : {1u, 2u, 3u, 7u, 8u, 100u, 65536u, 1000003u, 2147483647u, 2147483648u, 4294967295u}) for (int i = 0; i < 60; ++i) { INPUT("random_int " << n << " rand_max " << rm); CHECK(random_int(n) < n); }
    random_fn(old.first, old.second); }
  vector<int> c(6); for (int i = 0; i < 6000; ++i) ++c[random_int(6)]; for (int i = 0; i < 6; ++i) { INPUT("random_int 6"); CHECK(c[i] > 600); }
}
