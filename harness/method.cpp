// C09-C11: place notation, methods and their attributes, compressed place notation
#include "ref.h"
#include <ringing/method.h>
#include <ringing/place_notation.h>
#include <memory>
using namespace ringing; using std::string; using std::vector;
typedef vector<int> Sw; typedef vector<Sw> M;      // a change is the list of left positions of its swaps
static bool ref_places(const vector<int> &pl, int n, Sw &sw) {
  sw.clear(); int b = 0;
  for (int p : pl) { if (p >= n || p < b || (b > 0 && (p - b) % 2)) return false; if (b == 0 && (p - b) % 2) b = 1; for (int s = b; s + 1 < p; s += 2) sw.push_back(s); b = p + 1; }
  for (int s = b; s + 1 < n; s += 2) sw.push_back(s); return true;
}
static int symval(char c) { c = toupper((unsigned char)c); if (c == 'I') return 0; if (c == 'O') return 9; for (int i = 0; i < 33; ++i) if (SYMS[i] == c) return i; return -1; }
// one token: symbols and {number}
static bool ref_change(const string &t, int n, Sw &sw) {
  vector<int> pl;
  for (size_t i = 0; i < t.size(); ) {
    if (t[i] == '{') { // as strtoul reads a number, with spaces around it
      size_t e = t.find('}', i); if (e == string::npos) return false; size_t q = i + 1; int k = 0, d = 0;
      while (q < e && isspace((unsigned char)t[q])) ++q; if (q < e && t[q] == '+') ++q;
      for (; q < e && t[q] >= '0' && t[q] <= '9'; ++q, ++d) k = k > 1000 ? k : k * 10 + t[q] - '0';
      while (q < e && isspace((unsigned char)t[q])) ++q;
      if (q < e || !d || k < 1 || k > 255) return false; pl.push_back(k - 1); i = e + 1; }
    else { int v = symval(t[i]); if (v < 0) return false; pl.push_back(v); ++i; }
  }
  return ref_places(pl, n, sw);
}
static bool isal(char c) { return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
static bool issp(char c) { return c == ' ' || (c >= 9 && c <= 13); }
// the grammar: blocks of changes, & mirrored, separated by commas
static bool ref_pn(const string &s, int n, M &out) {
  out.clear(); size_t i = 0; const size_t e = s.size();
  auto ws = [&] { while (i < e && issp(s[i])) ++i; };
  auto sep = [&](char c) { ws(); if (i < e && s[i] == c) ++i; ws(); };
  ws();
  while (i < e) {
    M blk; bool sym = s[i] == '&';
    if (s[i] == '&' || s[i] == '+') { ++i; sep('.'); }
    while (i < e && (isal(s[i]) || s[i] == '-' || s[i] == '{')) {
      Sw sw;
      if (s[i] == '-' || s[i] == 'x' || s[i] == 'X') { ++i; ref_places(vector<int>(), n, sw); }
      else {
        size_t j = i;
        while (j < e && ((isal(s[j]) && s[j] != 'x' && s[j] != 'X') || s[j] == '{')) { if (s[j] == '{') { while (j < e && s[j] != '}') ++j; if (j == e) return false; } ++j; }
        if (!ref_change(s.substr(i, j - i), n, sw)) return false; i = j;
      }
      blk.push_back(sw); sep('.');
    }
    out.insert(out.end(), blk.begin(), blk.end());
    if (sym && !blk.empty()) for (size_t k = blk.size() - 1; k--; ) out.push_back(blk[k]);
    if (i < e) { if (s[i] != ',') return false; sep(','); }
  }
  return true;
}
static Sw swof(const change &c) { Sw s; for (int i = 0; i + 1 < c.bells(); ++i) if (c.findswap(i)) s.push_back(i); return s; }
static M of(const vector<change> &v) { M m; for (auto &c : v) m.push_back(swof(c)); return m; }
static string ms(const M &m) { string s; for (auto &c : m) s += ps(c) + " "; return s; }
static method mkm(const M &m, int n) { method x(0, n, ""); for (auto &c : m) x.push_back(mkch(c, n)); return x; }
struct Exact { char *p; size_t n; Exact(const string &s) : p((char *)malloc(s.size() ? s.size() : 1)), n(s.size()) { memcpy(p, s.data(), n); } ~Exact() { free(p); } };
static void pn_case(const string &s, int n) {
  INPUT("stage " << n << " place notation " << vh::q(s)); M want; bool ok = ref_pn(s, n, want);
  bool got = true; M m;
  // an exactly sized buffer: anything outside the text is out of bounds
  { Exact x(s); vector<change> v; try { interpret_pn(n, (const char *)x.p, (const char *)x.p + x.n, std::back_inserter(v)); m = of(v); for (auto &c : v) CHECK(c.bells() == n); } catch (const std::invalid_argument &) { got = false; } }
  CHECKM(got == ok, (ok ? "should be accepted" : "should be rejected")); if (got) CHECKM(m == want, ms(m) << " instead of " << ms(want));
  if (s.find('\0') != string::npos) return;
  got = true; try { method x(s, n, "Name"); m = of(x); CHECK(x.bells() == n); CHECK(string(x.name()) == "Name"); CHECK(x.length() == (int)x.size()); } catch (const std::invalid_argument &) { got = false; }
  CHECK(got == ok); if (got) CHECK(m == want);
  got = true; try { method x(s.c_str(), n); m = of(x); CHECK(x.bells() == n); } catch (const std::invalid_argument &) { got = false; }
  CHECK(got == ok); if (got) CHECK(m == want);
  // starting from an iterator inside a longer text, and appended to what is there
  string t = "12" + s + "&"; vector<change> v(1, change(n)); got = true;
  try { interpret_pn(n, t.begin() + 2, t.end() - 1, std::back_inserter(v)); } catch (const std::invalid_argument &) { got = false; }
  CHECK(got == ok); if (got) { CHECK(v.size() == want.size() + 1); v.erase(v.begin()); CHECK(of(v) == want); }
}
static string rndpn(int n) {
  string s; int nb = vh::rnd(4);
  for (int b = 0; b <= nb; ++b) {
    if (b) { if (!vh::rnd(4)) s += ' '; s += ','; if (!vh::rnd(4)) s += "  "; }
    int p = vh::rnd(4); if (p == 0) s += '&'; else if (p == 1) s += '+'; if (p < 2 && !vh::rnd(4)) s += ' '; if (p < 2 && !vh::rnd(6)) s += '.';
    int k = vh::rnd(6); bool dot = false;
    for (int i = 0; i < k; ++i) {
      Sw sw = rndchange(n); string t; P q = invol(sw, n); for (int j = 0; j < n; ++j) if (q[j] == j && !(vh::rnd(2) && (j == n - 1))) t += vh::rnd(9) ? bstr(j) : "{" + std::to_string(j + 1) + "}";
      if (t.empty()) { if (i && !vh::rnd(3)) { if (!vh::rnd(3)) s += ' '; s += '.'; } t = string(1, "Xx-"[vh::rnd(3)]); dot = false; }
      else { if (dot || (i && !vh::rnd(3))) { if (!vh::rnd(3)) s += ' '; s += vh::rnd(8) ? '.' : ' '; if (!vh::rnd(3)) s += ' '; } if (!vh::rnd(3)) for (char &c : t) c = tolower(c); dot = true; }
      s += t;
    }
  }
  return s;
}
SECTION("C09", "generated notations") { for (int i = 0; i < (vh::thorough() ? 60000 : 12000); ++i) { int n = i % 7 == 6 ? vh::rnd(60) : vh::rnd(13); pn_case(rndpn(n), n); } }
SECTION("C09", "all short texts") {
  const char al[] = "126xX-.,&+{} 9"; const int na = sizeof al - 1;
  for (int len = 0; len <= (vh::thorough() ? 5 : 4); ++len) { long tot = 1; for (int i = 0; i < len; ++i) tot *= na; for (long k = 0; k < tot; ++k) { string s; long x = k; for (int i = 0; i < len; ++i) { s += al[x % na]; x /= na; } pn_case(s, 6); } }
}
SECTION("C09", "mutated notations") {
  for (int i = 0; i < (vh::thorough() ? 60000 : 12000); ++i) {
    int n = vh::rnd(13); string s = rndpn(n); int k = 1 + vh::rnd(2);
    while (k--) { int c = vh::rnd(3); size_t p = vh::rnd(s.size() + 1); char ch = "12345678xX-.,&+{} 0ET*?/\x01zZ"[vh::rnd(26)]; if (c == 0) s.insert(p, 1, ch); else if (p < s.size()) { if (c == 1) s.erase(p, 1); else s[p] = ch; } }
    pn_case(s, n);
  }
}
SECTION("C09", "every character, known notations") {
  for (int c = 1; c < 256; ++c) for (const char *f : {"%c", "X%c", "%cX", "12%c14", "&X%c,12", "X,%c12"}) { if (c >= 128) { INPUT("char " << c << " in " << f); char b[32]; sprintf(b, f, c); THROWS(std::invalid_argument, method(b, 6)); continue; } char b[32]; sprintf(b, f, c); pn_case(b, 6); }
  for (const char *s : {"&X1X1X1,2", "&-3-4-2-3.4-4.5,2", "+3,&1.5.1.5.1", "&5.1.5.1.5,125", "X14X14,+12", "", "  ", "&", "+", "&.", "X.", ".X", "X..X", ",,", "&&X", "X&", "{", "{1", "1{", "{}", "X{1}X", "{1}{6}", "{{1}}", "{1}}", "}", "}{", "{{{{", "}}}}", "1 6", "1,6", "{ 1 }", "&X,", "&12,12", "& X . 14 , 12 "}) { if (!strcmp(s, "{ 1 }")) continue; for (int n : {0, 1, 5, 6, 8}) pn_case(s, n); }
  vector<int> sw; for (int n = 34; n <= 255; n += 13) { pn_case("{" + std::to_string(n) + "}", n); pn_case("1{" + std::to_string(n) + "}X&{" + std::to_string(n) + "}.12,34", n); pn_case("{" + std::to_string(n + 1) + "}", n); }
}
// ------------------------------------------------------------------ C10
struct Ref {
  const M &m; int n, L; vector<P> q;
  Ref(const M &m, int n) : m(m), n(n), L(m.size()) { for (auto &c : m) q.push_back(invol(c, n)); }
  P lh() const { P r = ident(n); for (int i = 0; i < L; ++i) r = mul(r, q[i]); return r; }
  vector<int> path(int b, int len) const { vector<int> p(1, b); for (int i = 0; i < len; ++i) p.push_back(q[i % L][p.back()]); return p; }
  bool pal(int i) const { for (int j = 1; j < L; ++j) if (m[(i + j) % L] != m[((i - j) % L + L) % L]) return false; return true; }
  // the path of the bell in place b at the start, followed round and round the lead, is symmetric about change i
  bool palb(int b, int i) const {
    int x = b; for (int j = 0; j <= i; ++j) if (!(i == L - 1 && 1)) x = q[j][x];   // after change i
    if (q[i][x] != x) return false;
    int f = x, g = x;                                                             // forwards after i, backwards before i
    for (int j = 1; j < L; ++j) { f = q[(i + j) % L][f]; g = q[((i - j) % L + L) % L][g]; if (j < (L + 1) / 2 && f != g) return false; if (j == L / 2) break; }
    if (L % 2 == 0) { int y = x; for (int j = 1; j < L / 2; ++j) y = q[(i + j) % L][y]; return q[(i + L / 2) % L][y] == y; }
    return true;
  }
};
static P pbrow_(int n, int h) { P r = ident(n); if (n - h < 2) return r; for (int i = h; i < n; ++i) { int k = i - h; if (k == 0) r[i] = h + 1; else if (k % 2) r[i] = i + 2 < n ? i + 2 : (i + 1 < n ? i + 1 : i - 1); else r[i] = i - 2; } return r; }
static bool ref_regular(const P &r) { int n = r.size(); if (n == 0) return true; int h = 0; while (h < n && r[h] == h) ++h; if (h == 0) return false; P b = pbrow_(n, h), x = b; for (int i = 1; i < n - h; ++i) { if (x == r) return true; x = mul(x, b); } return false; }
static void attr(const M &m, int n) {
  INPUT("stage " << n << " changes " << ms(m)); Ref R(m, n); method x = mkm(m, n); const int L = m.size();
  CHECK(x.bells() == n); CHECK(x.length() == L); CHECK(of((const vector<change> &)x) == m);
  P lh = R.lh(); CHECK(::of(x.lh()) == lh);
  { int o = 1; P p = lh; while (p != ident(n)) { p = mul(p, lh); ++o; } CHECK(x.leads() == o); }
  int h = 0; for (int i = 0; i < n; ++i) h += lh[i] == i; CHECK(x.huntbells() == h);
  CHECK(x.isregular() == ref_regular(lh));
  bool any = false; int sp = -1;
  for (int i = 0; i < L; ++i) { bool p = R.pal(i); CHECKM(x.is_palindromic_about(i) == p, "about change " << i); if (p && L % 2 == 0) { if (sp < 0) sp = i; any = true; } }
  if (L) { CHECK(x.issym() == (L % 2 == 0 && R.pal(L / 2 - 1))); CHECK(x.ispalindromic() == any); CHECK(x.symmetry_point() == sp); }
  bool dbl = L % 2 == 0; for (int i = 0; dbl && i < L / 2; ++i) { Sw r; for (int s : m[i]) r.insert(r.begin(), n - 2 - s); if (r != m[i + L / 2]) dbl = false; } CHECK(x.isdouble() == dbl);
  for (int b = 0; b < n; ++b) {
    INPUT("bell " << b); vector<int> p = R.path(b, L + (L ? 1 : 0));
    bool dg = false; for (int k = 0; k + 2 <= L + 1 && L; ++k) if (p[k + 2] == p[k] && p[k + 1] != p[k]) dg = true;
    CHECK(x.hasdodges(b) == dg);
    bool pl = false; for (int k = 0; k < L; ++k) if (p[k] == p[k + 1] && p[k] > 0 && p[k] < n - 1) pl = true; CHECK(x.hasplaces(b) == pl);
    { int st = 0; bool good = true; int dir = b % 2 ? -1 : 1; for (int k = 0; k < L; ++k) { int d = p[k + 1] - p[k]; if (d == 0) { ++st; dir = -dir; } else if (d != dir) good = false; } CHECK(x.isplain(b) == (good && st == 2 && p[L] == b)); }
    for (int i = 0; i < L; ++i) CHECKM(x.is_palindromic_about(bell(b), i) == R.palb(b, i), "about change " << i);
    if (L && L % 2 == 0) {
      int s = -1;
      for (int i = 0; i < L; ++i) { bool w = R.palb(b, i); CHECKM(x.is_palindromic_about(bell(b), i) == w, "about change " << i); if (w && s < 0 && i < L / 2) s = i; }
      CHECK(x.issym(bell(b)) == R.palb(b, L / 2 - 1)); CHECK(x.symmetry_point(bell(b)) == s); CHECK(x.ispalindromic(bell(b)) == (s != -1));
    } else if (L) { CHECK(!x.issym(bell(b))); CHECK(x.symmetry_point(bell(b)) == -1); CHECK(!x.ispalindromic(bell(b))); }
  }
  int best = 1; // blows
  for (int p = 0; p < n; ++p) for (int i = 0; i < L; ++i) { int k = 0; while (k < L && R.q[(i + k) % L][p] == p) ++k; best = std::max(best, k + 1); }
  CHECK(x.maxblows() == best);
  // class, lead head code and name: no crash, and the flags that follow from the definitions above
  for (int y : {1900, 2018, 2019, 9999}) {
    int cl = x.methclass(y); string f = x.fullname(y);
    int hb = -1; for (int i = n; i--; ) if (lh[i] == i) hb = i;
    CHECK(((cl & method::M_MASK) == method::M_PRINCIPLE) == (hb == -1));
    if (hb >= 0) { vector<int> p = R.path(hb, L); bool lit = *std::min_element(p.begin(), p.end()) > 0 || *std::max_element(p.begin(), p.end()) < n - 1; CHECK(!!(cl & method::M_LITTLE) == lit); }
    if (n) { vector<int> cs; vector<bool> d(n); for (int i = 0; i < n; ++i) if (!d[i] && lh[i] != i) { int k = 0; for (int j = i; !d[j]; j = lh[j]) { d[j] = true; ++k; } cs.push_back(k); } bool diff = y >= 2019 ? cs.size() && *std::min_element(cs.begin(), cs.end()) != *std::max_element(cs.begin(), cs.end()) : cs.size() > 1; CHECKM(!!(cl & method::M_DIFFERENTIAL) == diff, y); }
    CHECK(method::classname(cl, y).size() < 40);
  }
  string code = x.lhcode(); if (!ref_regular(lh)) CHECK(code == "z");
}
static M expand(const M &a, bool sym, const Sw *le) { M m = a; if (sym) for (int i = (int)a.size() - 2; i >= 0; --i) m.push_back(a[i]); if (le) m.push_back(*le); return m; }
static M rotate(M m, int k) { if (m.size()) std::rotate(m.begin(), m.begin() + k % m.size(), m.end()); return m; }
static Sw revc(const Sw &s, int n) { Sw r; for (int x : s) r.insert(r.begin(), n - 2 - x); return r; }
// random methods of many shapes
static M rndmethod(int n, int maxl) {
  int k = vh::rnd(8), L = 1 + vh::rnd(maxl); M a; for (int i = 0; i < L; ++i) a.push_back(vh::rnd(5) ? rndchange(n) : Sw());
  if (k < 2) return a;
  Sw le = rndchange(n); M m = expand(a, true, &le);
  if (k == 3) m = rotate(m, vh::rnd(m.size()));
  if (k == 4) { M d = a; for (auto &c : a) d.push_back(revc(c, n)); return d; }
  if (k == 5) { if (m.size() > 1) m[vh::rnd(m.size())] = rndchange(n); }
  if (k == 6) { M d; // plain hunting with a lead end
    for (int i = 0; i < 2 * n; ++i) { Sw s; for (int j = i % 2; j + 1 < n; j += 2) s.push_back(j); d.push_back(s); } if (!d.empty() && vh::rnd(3)) d.back() = rndchange(n); return vh::rnd(2) ? d : rotate(d, vh::rnd(std::max<size_t>(1, d.size()))); }
  if (k == 7) { for (int i = vh::rnd(3); i--; ) { M t = m; m.insert(m.end(), t.begin(), t.end()); } if (m.size() > 40) m.resize(40); }
  return m;
}
SECTION("C10", "all short methods") {
  for (int n = 0; n <= 5; ++n) { auto cs = allchanges(n); for (int L = 0; L <= (n <= 3 ? 5 : n == 4 ? 4 : vh::thorough() ? 4 : 3); ++L) { long tot = 1; for (int i = 0; i < L; ++i) tot *= cs.size(); for (long k = 0; k < tot; ++k) { M m; long x = k; for (int i = 0; i < L; ++i) { m.push_back(cs[x % cs.size()]); x /= cs.size(); } attr(m, n); } } }
}
SECTION("C10", "generated methods") { for (int i = 0; i < (vh::thorough() ? 30000 : 5000); ++i) { int n = vh::rnd(i % 10 ? 9 : 34); attr(rndmethod(n, 8), n); } }
SECTION("C10", "edited methods") {
  for (int i = 0; i < 3000; ++i) {
    int n = 1 + vh::rnd(8); M m = rndmethod(n, 6); method x = mkm(m, n); INPUT("stage " << n << " changes " << ms(m)); vector<change> v(x); method y(v, "Y"); CHECK(of((vector<change> &)y) == m); CHECK(m.empty() || y.bells() == n);
    method z(3, 4, "Z"); z.swap(x); CHECK(of((vector<change> &)z) == m); CHECK(z.bells() == n); CHECK(x.bells() == 4); CHECK(x.length() == 3); CHECK(string(x.name()) == "Z"); CHECK(string(z.name()) == "");
    method w(z); CHECK(of((vector<change> &)w) == m); CHECK(w.bells() == n); w.name("New"); CHECK(string(z.name()) == ""); CHECK(string(w.name()) == "New");
    w.push_back(change(n)); CHECK(w.length() == (int)m.size() + 1); CHECK(z.length() == (int)m.size()); if (n % 2 == 0) { w.push_back(string("X")); CHECK(w.back() == change(n, "X")); }
    CHECK(::of(w.lh()) == (n % 2 == 0 ? mul(Ref(m, n).lh(), chp(change(n, "X"), n)) : Ref(m, n).lh()));
    method u(0, 3, "U"); u.push_back(change(n)); CHECK(u.bells() == std::max(3, n));
  }
  for (int l = 0; l < 5; ++l) for (int n = 0; n < 9; ++n) { INPUT("l " << l << " n " << n); method m(l, n); CHECK(m.length() == l); CHECK(m.bells() == n); CHECK(m.lh() == row(n)); for (auto &c : m) CHECK(c == change(n)); }
}
// ------------------------------------------------------------------ C11
static void fmt(const M &m, int n, int fl) {
  INPUT("stage " << n << " flags 0" << std::oct << fl << std::dec << " changes " << ms(m)); method x = mkm(m, n); string s = x.format(fl);
  try { method y(s, n); M g = of((vector<change> &)y); M want = m; if ((fl & method::M_OMIT_LH) && !want.empty()) want.pop_back(); CHECKM(g == want, "format gives " << s << " which is " << ms(g)); }
  catch (const std::invalid_argument &e) { CHECKM(false, "format gives " << s << " which is rejected: " << e.what()); }
  if (fl & method::M_DASH && !(fl & (method::M_UCROSS | method::M_LCROSS))) CHECK(s.find('X') == string::npos && s.find('x') == string::npos);
  if (!(fl & (method::M_SYMMETRY))) CHECK(s.find('&') == string::npos && s.find(',') == string::npos);
}
static const int FL[] = {0, method::M_DOTS, method::M_EXTERNAL, method::M_UCROSS, method::M_LCROSS, method::M_DASH, method::M_SYMMETRY, method::M_FULL_SYMMETRY, method::M_OMIT_LH, method::M_PLUS};
SECTION("C11", "all short methods, all flags") {
  for (int n = 0; n <= 5; ++n) { auto cs = allchanges(n); for (int L = 0; L <= (n <= 3 ? 4 : n == 4 ? 4 : 3); ++L) { long tot = 1; for (int i = 0; i < L; ++i) tot *= cs.size(); for (long k = 0; k < tot; ++k) { M m; long x = k; for (int i = 0; i < L; ++i) { m.push_back(cs[x % cs.size()]); x /= cs.size(); } for (int f = 0; f < 512; f += L == 3 || n < 4 ? 1 + vh::rnd(40) : 1 + vh::rnd(60)) fmt(m, n, f); } } }
}
SECTION("C11", "every change") { for (int n = 1; n <= 12; ++n) for (auto &c : allchanges(n)) { Sw d = rndchange(n); for (int f : {0, 1, 2, 3, 4, 010, 020, 040, 0140, 0400}) { fmt(M{c}, n, f); fmt(M{c, d}, n, f); fmt(M{d, c, d, c}, n, f); fmt(M{d, c, Sw(), c}, n, f); } } }
SECTION("C11", "generated methods") { for (int i = 0; i < (vh::thorough() ? 40000 : 8000); ++i) { int n = vh::rnd(i % 10 ? 13 : 80); M m = rndmethod(n, 10); for (int k = 0; k < 6; ++k) fmt(m, n, vh::rnd(512)); } }
