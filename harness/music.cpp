// C17, C18: music and row wildcards
#include "ref.h"
#include <memory>
#include <functional>
#include <ringing/music.h>
#include <ringing/row_wildcard.h>
using namespace ringing; using std::vector; using std::string;
struct Tok { bool star, any; std::set<int> s; };
static int symval(char c) { c = toupper((unsigned char) c); if (c == 'I') c = '1'; if (c == 'O') c = '0'; const char *p = c ? strchr(SYMS, c) : 0; return p ? p - SYMS : -1; }
// parses a pattern; false if it is malformed
static bool parse(const string &p, vector<Tok> &out) {
  out.clear(); bool in = false; Tok cur;
  for (char c : p) {
    if (in) { if (c == ']') { in = false; out.push_back(cur); } else if (symval(c) >= 0) cur.s.insert(symval(c)); else return false; }
    else if (c == '[') { in = true; cur = Tok{false, false, {}}; }
    else if (c == '*') out.push_back(Tok{true, true, {}});
    else if (c == '?') out.push_back(Tok{false, true, {}});
    else if (symval(c) >= 0) out.push_back(Tok{false, false, {symval(c)}});
    else return false;
  }
  return !in;
}
static int maxbell(const string &p) { int m = -1; for (char c : p) m = std::max(m, symval(c)); return m; }
static bool hasstar(const vector<Tok> &t) { for (auto &x : t) if (x.star) return true; return false; }
static bool m_(const vector<Tok> &t, size_t i, const P &r, size_t pos, bool prefix) {
  if (i == t.size()) return prefix || pos == r.size();
  if (t[i].star) { for (size_t q = pos; q <= r.size(); ++q) if (m_(t, i + 1, r, q, prefix)) return true; return false; }
  return pos < r.size() && (t[i].any || t[i].s.count(r[pos])) && m_(t, i + 1, r, pos + 1, prefix);
}
static bool matches(const vector<Tok> &t, const P &r) { return m_(t, 0, r, 0, !hasstar(t)); }
static void ways(const vector<Tok> &t, size_t i, const P &r, size_t pos, P &w, std::set<P> &out, bool prefix) {
  if (i == t.size()) { if (prefix) { P x(w); x.insert(x.end(), r.begin() + pos, r.end()); out.insert(x); } else if (pos == r.size()) out.insert(w); return; }
  if (t[i].star) { const size_t l = w.size(); for (size_t q = pos; q <= r.size(); ++q) { ways(t, i + 1, r, q, w, out, prefix); if (q < r.size()) w.push_back(r[q]); } w.resize(l); return; }
  if (pos >= r.size() || !(t[i].any || t[i].s.count(r[pos]))) return;
  if (t[i].any) w.push_back(r[pos]); ways(t, i + 1, r, pos + 1, w, out, prefix); if (t[i].any) w.pop_back();
}
static const vector<P> &rows(int n) { static std::map<int, vector<P> > c; auto &v = c[n]; if (v.empty()) v = allperms(n); return v; }
static const vector<row> &rrows(int n) { static std::map<int, vector<row> > c; auto &v = c[n]; if (v.empty()) for (auto &p : rows(n)) v.push_back(mk(p)); return v; }
static unsigned long refcount(const vector<Tok> &t, int n) { unsigned long c = 0; for (auto &r : rows(n)) c += matches(t, r); return c; }
static string gen(int n, int len, bool wellformed = true) {
  string s; const char *junk = "?*[]{}!+, 1";
  for (int i = 0; i < len; ++i) {
    int k = vh::rnd(wellformed ? 12 : 13);
    if (k < 4) s += vh::rnd(9) ? SYMS[vh::rnd(n)] : n > 9 && vh::rnd(2) ? 'O' : 'I'; else if (k < 6) s += '?'; else if (k < 9) s += '*';
    else if (k < 12) { s += '['; for (int j = 1 + vh::rnd(4); j--; ) s += SYMS[vh::rnd(n)]; s += ']'; }
    else s += junk[vh::rnd(11)];
  }
  return s;
}
// patterns that make sense: at most one star more than needed, distinct bells
static string gen2(int n) {
  P p = rndperm(n); string s; int at0 = 0, stars = vh::rnd(4), need = vh::rnd(n + 1);
  for (int i = 0; i < need; ++i) {
    if (stars && vh::rnd(need) == 0) { s += '*'; --stars; }
    int k = vh::rnd(7);
    if (k < 4) s += SYMS[p[at0++]]; else if (k == 4) { s += '?'; at0++; } else { s += '['; s += SYMS[p[at0++]]; for (int j = vh::rnd(3); j--; ) s += SYMS[p[vh::rnd(n)]]; s += ']'; }
  }
  if (stars) s += '*';
  return s;
}
SECTION("C18", "all short patterns") {
  const string al = "12?*[]I"; const int L = vh::thorough() ? 6 : 5;
  struct Go { static void go(string &s, const string &al, int L) {
    { INPUT("pattern " << vh::q(s)); vector<Tok> t; bool ok = parse(s, t), thrown = false;
      try { row_wildcard w(s); CHECK(w.get() == s); CHECK(w.bells() == 0); if (ok) for (int n = 1; n <= 4; ++n)  { unsigned long c = w.count(n), e = refcount(t, n); CHECKM(c == e, "count(" << n << ") is " << c << ", expected " << e); } THROWS(row_wildcard::invalid_pattern, w.count()); }
      catch (const row_wildcard::invalid_pattern &) { thrown = true; }
      CHECKM(thrown == !ok, (ok ? "valid pattern rejected" : "malformed pattern accepted")); }
    if ((int)s.size() == L) return;
    for (char c : al) { s += c; go(s, al, L); s.resize(s.size() - 1); }
  } };
  string s; Go::go(s, al, L);
}
SECTION("C18", "counts of generated patterns") {
  for (int t = 0; t < (vh::thorough() ? 40000 : 5000); ++t) {
    int n = 1 + vh::rnd(t % 20 ? 5 : 7); string s = vh::rnd(3) ? gen2(n) : gen(n, vh::rnd(n + 2)); vector<Tok> k; INPUT("pattern " << vh::q(s) << " on " << n << " bells");
    CHECK(parse(s, k)); unsigned long e = refcount(k, n); row_wildcard w(s, n); unsigned long c = w.count(); CHECKM(c == e, "count is " << c << ", expected " << e); CHECK(w.count(n) == e); CHECK(w.bells() == (unsigned)n);
    row_wildcard v; v.set(s); CHECK(v.count(n) == e); v.set_bells(n); CHECK(v.count() == e); int m = 1 + vh::rnd(5); CHECK(w.count(m) == refcount(k, m)); CHECK(w.count() == e);
    if (maxbell(s) > 0) { THROWS(row_wildcard::invalid_pattern, row_wildcard(s, maxbell(s))); THROWS(row_wildcard::invalid_pattern, v.set_bells(maxbell(s))); }
  }
}
SECTION("C18", "malformed patterns") {
  for (int c = 1; c < 256; ++c) for (int pos = 0; pos < 4; ++pos) { string s = pos == 0 ? "" : pos == 1 ? "1*" : pos == 2 ? "[12" : "?[12]"; s += (char)c; if (pos == 2) s += "3]"; vector<Tok> t; bool ok = parse(s, t), th = false; INPUT("pattern " << vh::q(s)); try { row_wildcard w(s); } catch (const row_wildcard::invalid_pattern &) { th = true; } CHECK(th == !ok); th = false; try { music_details d(s); CHECK(d.get() == s); } catch (const music_details::invalid_regex &) { th = true; } CHECK(th == !ok); }
  for (int t = 0; t < 4000; ++t) { string s = gen(6, vh::rnd(6), false); vector<Tok> k; bool ok = parse(s, k), th = false; INPUT("pattern " << vh::q(s)); try { row_wildcard w(s); } catch (const row_wildcard::invalid_pattern &) { th = true; } CHECK(th == !ok); }
}
SECTION("C18", "large stages") {
  struct { const char *p; int n; unsigned long c; } c[] = {{"12345678", 8, 1}, {"*78", 8, 720}, {"*5678*", 8, 120}, {"*5678", 12, 40320}, {"*[56][56]78", 8, 48}, {"*", 20, 2432902008176640000ul}, {"1*", 20, 121645100408832000ul}, {"?1?*", 12, 39916800}, {"*12*", 12, 39916800ul}, {"*1*2*", 10, 1814400}, {"*34*12*", 8, 360}, {"*[12][12]*", 6, 240}, {"[ET]*[ET]", 12, 2 * 3628800ul}, {"1234567890ETABCDFGHJ", 20, 1}};
  for (auto &x : c) { INPUT("pattern " << x.p << " on " << x.n); row_wildcard w(x.p, x.n); CHECKM(w.count() == x.c, w.count()); }
}
static void apply(music &mu, const vector<string> &pats, const vector<std::pair<int, int> > &sc, int n, const vector<P> &rs, bool back0, bool whole) {
  const size_t K = pats.size(); vector<vector<Tok> > t(K); for (size_t k = 0; k < K; ++k) CHECK(parse(pats[k], t[k]));
  vector<unsigned> h(K), b(K); bool back = back0;
  if (whole) { vector<row> v; for (auto &r : rs) v.push_back(mk(r)); mu.process_rows(v.begin(), v.end(), back0); }
  for (auto &r : rs) {
    bool any = false; for (size_t k = 0; k < K; ++k) if (matches(t[k], r)) { any = true; ++(back ? b : h)[k]; }
    if (!whole) {
      INPUT("row " << ps(r)); bool got = mu.process_row(mk(r), back); CHECKM(got == any, "process_row returned " << got);
      size_t k = 0; for (auto &d : mu) { P w = P(); for (bell x : d.last_wildcard_matches()) w.push_back(x); P cur; std::set<P> ws; ways(t[k], 0, r, 0, cur, ws, !hasstar(t[k])); if (ws.empty()) ws.insert(P()); CHECKM(ws.count(w), "wildcard matches " << ps(w) << " of " << pats[k]); ++k; }
    }
    back = !back;
  }
  CHECK(mu.size() == K); CHECK(mu.bells() == (unsigned)n); long sh = 0, sb = 0; unsigned ch = 0, cb = 0; size_t k = 0; long poss = 0;
  for (auto &d : mu) {
    INPUT("pattern " << pats[k]); CHECK(d.get() == pats[k]); CHECKM(d.count(eHandstroke) == h[k], d.count(eHandstroke) << " expected " << h[k]); CHECKM(d.count(eBackstroke) == b[k], d.count(eBackstroke) << " expected " << b[k]); CHECK(d.count() == h[k] + b[k]);
    long th = (long)h[k] * sc[k].first, tb = (long)b[k] * sc[k].second; CHECK(d.total(eHandstroke) == th); CHECK(d.total(eBackstroke) == tb); CHECK(d.total() == th + tb); sh += th; sb += tb; ch += h[k]; cb += b[k];
    if (n <= 5 && n > 0) { long pm = refcount(t[k], n); CHECK(d.possible_matches(n) == (unsigned)pm); CHECK(d.possible_score(n) == pm * std::max(sc[k].first, sc[k].second)); poss += pm * std::max(sc[k].first, sc[k].second); } ++k;
  }
  CHECK(mu.get_score() == sh + sb); CHECK(mu.get_score(eHandstroke) == sh); CHECK(mu.get_score(eBackstroke) == sb); CHECK(mu.get_count() == ch + cb); CHECK(mu.get_count(eHandstroke) == ch); CHECK(mu.get_count(eBackstroke) == cb);
  if (n <= 5 && n > 0) CHECK(mu.get_possible_score() == poss);
}
SECTION("C17", "every row against every short pattern") {
  const string al = "123?*[]"; const int L = vh::thorough() ? 6 : 5;
  struct Go { static void go(string &s, const string &al, int L) {
    vector<Tok> t; if (parse(s, t)) for (int n = 1; n <= 4; ++n) if (maxbell(s) < n) {
      INPUT("pattern " << vh::q(s) << " on " << n << " bells"); music mu(n, music_details(s, 3, 5)); auto &R = rows(n); auto &RR = rrows(n); unsigned c = 0;
      for (size_t i = 0; i < R.size(); ++i) { bool e = matches(t, R[i]); bool g = mu.process_row(RR[i]); CHECKM(g == e, "row " << ps(R[i]) << " matched " << g); c += e; CHECKM(mu.begin()->count() == c, "row " << ps(R[i]) << " counted " << mu.begin()->count() << " in all, expected " << c); }
      CHECK(mu.get_score() == 3 * (int)c);
    }
    if ((int)s.size() == L) return;
    for (char c : al) { s += c; go(s, al, L); s.resize(s.size() - 1); }
  } };
  string s; Go::go(s, al, L);
}
SECTION("C17", "histories of patterns, rows and stages") {
  for (int t = 0; t < (vh::thorough() ? 20000 : 2500); ++t) {
    int n = 1 + vh::rnd(7); std::unique_ptr<music> mu; vector<string> pats; vector<std::pair<int, int> > sc; string log; INPUT("stage " << n << " history " << log);
    bool late = vh::rnd(4) == 0; mu.reset(new music(late ? vh::rnd(2) ? 0 : n + vh::rnd(3) : n));
    if (!late && vh::rnd(4) == 0) { string p = gen2(n); pats.push_back(p); sc.push_back({2, 7}); mu.reset(new music(n, music_details(p, 2, 7))); log += " " + p; }
    for (int k = vh::rnd(5); k--; ) { string p = vh::rnd(4) ? gen2(n) : gen(n, vh::rnd(n + 2)); int a = (int)vh::rnd(9) - 3, b = vh::rnd(3) ? a : (int)vh::rnd(9) - 3; pats.push_back(p); sc.push_back({a, b}); log += " " + p; if (a == b) mu->push_back(music_details(p, a)); else mu->append(music_details(p, a, b)); }
    if (late) { mu->set_bells(n); log += " set_bells"; }
    auto go = [&] { vector<P> rs; for (int k = vh::rnd(12); k--; ) rs.push_back(vh::rnd(4) && rs.size() ? rs[vh::rnd(rs.size())] : rndperm(n)); if (vh::rnd(2)) rs.push_back(ident(n)); string l; for (auto &r : rs) l += ps(r); INPUT("rows " << l); bool whole = vh::rnd(2); if (!whole) mu->reset_music(); apply(*mu, pats, sc, n, rs, vh::rnd(2), whole); };
    go(); go();
    { music copy(*mu); std::swap(*mu, copy); go(); }
    if (vh::rnd(2)) { int m = n + 1 + vh::rnd(2); mu->set_bells(m); log += " set_bells(" + std::to_string(m) + ")"; std::swap(n, m); go(); std::swap(n, m); bool fits = true; mu->set_bells(n); log += " back"; go(); (void)fits; int mb = -1; for (auto &p : pats) mb = std::max(mb, maxbell(p)); if (mb > 0) THROWS(music_details::invalid_regex, mu->set_bells(mb)); }
    if (vh::rnd(2)) { mu->clear(); pats.clear(); sc.clear(); log += " clear"; CHECK(mu->size() == 0); go(); string p = gen2(n); mu->push_back(music_details(p)); pats.push_back(p); sc.push_back({1, 1}); log += " " + p; go(); int m = 1 + vh::rnd(6); mu->clear(m); pats.clear(); sc.clear(); n = m; log += " clear(" + std::to_string(m) + ")"; p = gen2(n); mu->push_back(music_details(p)); pats.push_back(p); sc.push_back({1, 1}); go(); }
    if (maxbell(gen2(n)) >= 0) { string bad(1, SYMS[n]); THROWS(music_details::invalid_regex, mu->push_back(music_details(bad))); CHECK(mu->size() == pats.size()); }
  }
}
static bool runat(const P &r, int i, int n, int d) { for (int j = 1; j < n; ++j) if (i + j >= (int)r.size() || r[i + j] != r[i] + d * j) return false; return i + n <= (int)r.size(); }
SECTION("C17", "named music") {
  for (int b = 1; b <= 14; ++b) {
    vector<P> rs; for (int i = 0; i < 400; ++i) { P r = rndperm(b); if (b > 2 && vh::rnd(2)) { int n = 2 + vh::rnd(b - 1), x = vh::rnd(b - n + 1), y = vh::rnd(3) ? vh::rnd(b - n + 1) : vh::rnd(2) ? 0 : b - n; P run; for (int j = 0; j < n; ++j) run.push_back(x + j); if (vh::rnd(2)) std::reverse(run.begin(), run.end()); P o; for (int v : r) if (v < x || v >= x + n) o.push_back(v); o.insert(o.begin() + y, run.begin(), run.end()); r = o; } rs.push_back(r); }
    rs.push_back(ident(b)); rs.push_back(of(row::queens(b))); rs.push_back(of(row::kings(b))); rs.push_back(of(row::tittums(b))); rs.push_back(of(row::reverse_rounds(b)));
    auto total = [&](const string &name, std::function<unsigned(const P &)> f) { INPUT("<" << name << "> on " << b << " bells"); music mu(b); mu.add_named_music(name, 2, 3); for (auto &r : rs) { INPUT("row " << ps(r)); mu.reset_music(); bool g = mu.process_row(mk(r), true); unsigned e = f(r); CHECK(g == (e > 0)); CHECKM(mu.get_count(eBackstroke) == e, mu.get_count() << " expected " << e); CHECK(mu.get_score() == 3 * (int)e); } music m2(b); m2.add_scored_music_string("<" + name + ">"); CHECK(m2.size() == mu.size()); m2.process_row(mk(rs[0])); };
    total("rounds", [&](const P &r) { return r == ident(b); });
    total("reverse-rounds", [&](const P &r) { P q = ident(b); std::reverse(q.begin(), q.end()); return r == q; });
    total("queens", [&](const P &r) { P q; for (int i = 0; i < b; i += 2) q.push_back(i); for (int i = 1; i < b; i += 2) q.push_back(i); return r == q; });
    total("kings", [&](const P &r) { P q; for (int i = b - 1; i >= 0; --i) if (i % 2 == 0) q.push_back(i); for (int i = 1; i < b; i += 2) q.push_back(i); return r == q; });
    total("tittums", [&](const P &r) { P q; int h = (b + 1) / 2; for (int i = 0; i < h; ++i) { q.push_back(i); if (h + i < b) q.push_back(h + i); } return r == q; });
    total("CRUs", [&](const P &r) { if (b < 6) return 0; for (int k = 6; k < b; ++k) if (r[k] != k) return 0; return int(r[4] >= 3 && r[4] < 6 && r[5] >= 3 && r[5] < 6); });
    for (int n = 3; n <= b; ++n) {
      total(std::to_string(n) + "-runs", [&](const P &r) { unsigned c = 0; for (int i = 0; i < b; ++i) c += runat(r, i, n, 1) + runat(r, i, n, -1); return c; });
      total("front-" + std::to_string(n) + "-runs", [&](const P &r) { return runat(r, 0, n, 1) + runat(r, 0, n, -1); });
      total("back-" + std::to_string(n) + "-runs", [&](const P &r) { return runat(r, b - n, n, 1) + runat(r, b - n, n, -1); });
      for (int dir = -1; dir <= 1; ++dir) for (int pos = 0; pos < 3; ++pos) { music mu(music::make_runs_match(b, n, (music::match_pos)pos, dir, 1, 1)); INPUT("runs of " << n << " on " << b << " pos " << pos << " dir " << dir); for (int q = 0; q < 40; ++q) { const P &r = rs[vh::rnd(rs.size())]; unsigned e = 0; for (int i = 0; i < b; ++i) if (pos == 0 || (pos == 1 && i == 0) || (pos == 2 && i == b - n)) e += (dir >= 0 && runat(r, i, n, 1)) + (dir <= 0 && runat(r, i, n, -1)); mu.reset_music(); mu.process_row(mk(r)); CHECKM(mu.get_count() == e, "row " << ps(r) << " " << mu.get_count() << " expected " << e); } }
    }
    music mu(b); for (const char *bad : {"", "round", "x-runs", "2-runs", "1-runs", "0-runs", "-3-runs", "3-runs ", "front-2-runs", "back-x-runs", "front-runs", "-runs", "3-run", "crus"}) { INPUT("<" << bad << ">"); THROWS(invalid_named_music, mu.add_named_music(bad)); } THROWS(invalid_named_music, mu.add_named_music(std::to_string(b + 1) + "-runs")); CHECK(mu.size() == 0);
  }
}
SECTION("C17", "scored music strings") {
  for (int t = 0; t < 3000; ++t) {
    int n = 4 + vh::rnd(4); string p; do p = gen2(n); while (p.size() < 1 || p.find(':') != string::npos); int form = vh::rnd(3), a = (int)vh::rnd(41) - 20, b = (int)vh::rnd(41) - 20; auto num = [](int x) { return x > 0 && vh::rnd(2) ? "+" + std::to_string(x) : std::to_string(x); };
    string s = form == 0 ? p : form == 1 ? num(a) + ":" + p : num(a) + "," + num(b) + ":" + p; if (form == 0) a = b = 1; if (form == 1) b = a; INPUT("music string " << vh::q(s) << " on " << n);
    music mu(n); mu.add_scored_music_string(s); CHECK(mu.size() == 1); CHECK(mu.begin()->get() == p); P r = rndperm(n); vector<Tok> k; parse(p, k); bool m = matches(k, r); mu.process_row(mk(r), false); mu.process_row(mk(r), true); CHECK(mu.get_score(eHandstroke) == (m ? a : 0)); CHECK(mu.get_score(eBackstroke) == (m ? b : 0));
  }
  for (int t = 0; t < 500; ++t) {
    int n = 2 + vh::rnd(5); string p = vh::rnd(4) ? gen2(n) : ""; INPUT("detail " << vh::q(p) << " on " << n << " set again"); vector<Tok> k; CHECK(parse(p, k)); music mu(n, music_details(p, 2)); unsigned c = 0; for (int j = 0; j < 5; ++j) { P r = rndperm(n); mu.process_row(mk(r), j & 1); c += matches(k, r); }
    music_details d = *mu.begin(); CHECK(d.count() == c); CHECK(d.total() == 2 * (int)c); string q = vh::rnd(2) ? p : gen2(n); if (vh::rnd(2)) d.set(q, 3); else d.set(q, 3, 4); CHECK(d.get() == q); CHECK(d.count() == 0 && d.count(eHandstroke) == 0 && d.total() == 0); CHECK(mu.begin()->count() == c);
    alignas(music_details) char buf[sizeof(music_details)]; memset(buf, 0x5a, sizeof buf); music_details *f = vh::rnd(2) ? new (buf) music_details(p, 2, 3) : new (buf) music_details(p); CHECK(f->count() == 0 && f->total() == 0 && f->get() == p); f->~music_details();
  }
  { music mu(6); mu.add_scored_music_string("2,3:<rounds>"); mu.process_row(row(6), true); CHECK(mu.get_score() == 3); }
}
