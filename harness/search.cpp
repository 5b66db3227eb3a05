// Bounded checks of the touch searches (C23): the touches output are compared with
// those found by enumerating every sequence of calls and proving it row by row.
#include "ref.h"
#include <ringing/method.h>
#include <ringing/group.h>
#include <ringing/touch.h>
#include <ringing/basic_search.h>
#include <ringing/table_search.h>
#include <new>
using namespace ringing;
using std::vector; using std::string;
typedef vector<P> Ch; // a touch as the changes rung
typedef vector<int> Calls;
struct Case { int n; vector<P> lead; vector<P> ends; vector<P> parts; size_t lo, hi; bool ignore, mutual, nonround; };
static std::set<P> closure(const vector<P> &gens, int n) { std::set<P> s; vector<P> q; s.insert(ident(n)); q.push_back(ident(n)); while (!q.empty()) { P p = q.back(); q.pop_back(); for (auto &g : gens) { P r = mul(p, g); if (s.insert(r).second) q.push_back(r); } } return s; }
static int order(const P &p) { P q = p; int k = 1; while (q != ident(p.size())) { q = mul(q, p); ++k; } return k; }
// all the true touches, as call sequences
static void enumerate(const Case &c, const P &start, Calls &calls, std::set<P> &had, std::set<Calls> &out) {
  if (calls.size() >= c.hi) return;
  for (size_t k = 0; k < c.ends.size(); ++k) {
    P r = start; vector<P> added; bool ok = true;
    // the rows of this lead: from its lead head on, in every part
    for (size_t i = 0; i <= c.lead.size() && ok; ++i) {
      for (auto &g : c.parts) { P x = mul(g, r); if (!had.insert(x).second) { ok = false; break; } added.push_back(x); }
      if (ok && i < c.lead.size()) r = mul(r, c.lead[i]);
    }
    if (ok) {
      r = mul(r, c.ends[k]); P rr = r; // the last row of the lead has been rung; r is the next lead head
      // (the row before the lead end change was the last of the lead)
      calls.push_back(k); bool inpart = false; for (auto &g : c.parts) inpart |= g == rr;
      if (inpart) { if (calls.size() >= c.lo && (c.mutual || c.parts.size() == 1 || order(rr) == (int)c.parts.size())) out.insert(calls); }
      else if (!had.count(rr)) enumerate(c, rr, calls, had, out);
      calls.pop_back();
    }
    for (auto &x : added) had.erase(x);
  }
}
static Ch expand(const Case &c, const Calls &calls) { Ch r; for (int k : calls) { for (auto &x : c.lead) r.push_back(x); r.push_back(c.ends[k]); } return r; }
struct Out : search_base::outputer { vector<Ch> got; int n; size_t stop; Out(int n, size_t stop = (size_t)-1) : n(n), stop(stop) {} bool operator()(const touch &t) { Ch c; for (touch::const_iterator i = t.begin(); i != t.end(); ++i) c.push_back(chp(*i, n)); got.push_back(c); ++vh::progress(); return got.size() >= stop; } };
static vector<Calls> rotations(const Calls &c) { vector<Calls> r; Calls x = c; for (size_t i = 0; i < c.size(); ++i) { std::rotate(x.begin(), x.begin() + 1, x.end()); r.push_back(x); } return r; }
static string chz(const vector<P> &v, int n) { string r; for (auto &p : v) { string t; for (int i = 0; i < n; ++i) if (p[i] == i) t += SYMS[i]; r += (r.empty() ? "" : ".") + (t.empty() ? string("x") : t); } return r; }
static string cs(const Calls &c) { string s; for (int k : c) s += "pbs567"[k]; return s; }
static void check(const Case &c, const search_base &s) {
  std::set<Calls> want; Calls cur; std::set<P> had; enumerate(c, ident(c.n), cur, had, want);
  std::map<Ch, Calls> by; for (auto &w : want) by[expand(c, w)] = w;
  Out o(c.n); s.run(o); std::set<Calls> got;
  for (auto &g : o.got) { bool known = by.count(g); CHECKM(known, "a touch is output that is false, not round, or outside the limits: " << chz(g, c.n)); if (!known) continue; CHECKM(got.insert(by[g]).second, "output twice: " << cs(by[g])); }
  if (!c.ignore || c.parts.size() > 1) { for (auto &w : want) CHECKM(got.count(w), "not output: " << cs(w)); }
  else {
    for (auto &w : want) { int k = 0; std::set<Calls> rs; for (auto &r : rotations(w)) rs.insert(r); for (auto &r : rs) k += got.count(r); CHECKM(k == 1, k << " rotations output of " << cs(w)); }
  }
  { Out o2(c.n); s.run(o2); CHECK(o2.got == o.got); }
  if (!o.got.empty()) { size_t stop = 1 + vh::rnd(o.got.size()); Out p(c.n, stop); s.run(p); CHECKM(p.got.size() == stop, "told to stop after " << stop << ", output " << p.got.size()); CHECK(std::equal(p.got.begin(), p.got.begin() + std::min(stop, p.got.size()), o.got.begin())); }
}
static bool selftrue(const Case &c) { std::set<P> h; P r = ident(c.n); if (!h.insert(r).second) return false; for (auto &x : c.lead) { r = mul(r, x); if (!h.insert(r).second) return false; } return true; }
static vector<int> anychange(int n, bool treble) { for (;;) { vector<int> s = rndchange(n); if (s.empty()) continue; if (treble && s[0] == 0) continue; return s; } }
static string chs(const vector<P> &v, int n) { return chz(v, n); }
static void gen(Case &c, int n, int mode) {
  c.n = n; bool fixed = vh::rnd(2) && n > 3; 
  do {
    c.lead.clear(); c.ends.clear(); vector<vector<int> > l; int len = vh::rnd(n <= 4 ? 5 : 7);
    if (len == 0 && vh::rnd(2)) len = 2;
    if (fixed && vh::rnd(2)) { // plain hunt the treble
      l.clear(); for (int i = 0; i < 2 * n - 1; ++i) { int pos = i < n ? i : 2 * n - 1 - i, nxt = i + 1 < n ? i + 1 : i + 1 == n ? n - 1 : 2 * n - 2 - i; vector<int> s; int a = std::min(pos, nxt); if (pos == nxt) a = -1; for (int j = a < 0 ? (n % 2 == 0 ? 1 : 0) : (a % 2); j + 1 < n; j += 2) if (a < 0 ? j + 1 < n - 1 : true) s.push_back(j); if (s.empty()) s.push_back(0); l.push_back(s); }
    } else for (int i = 0; i < len; ++i) l.push_back(anychange(n, false));
    for (auto &s : l) c.lead.push_back(invol(s, n));
  } while (!selftrue(c));
  int k = 1 + vh::rnd(3); for (int tries = 0; (int)c.ends.size() < k && tries < 40; ++tries) { P p = invol(anychange(n, fixed), n); if (std::find(c.ends.begin(), c.ends.end(), p) == c.ends.end()) c.ends.push_back(p); }
  if (c.ends.empty()) c.ends.push_back(invol(anychange(n, false), n));
}
static change tochange(const P &p) { vector<int> s; for (int i = 0; i + 1 < (int)p.size(); ++i) if (p[i] == i + 1) s.push_back(i); return mkch(s, p.size()); }
static void make(const Case &c, method &m, vector<change> &calls) { vector<change> v; for (auto &x : c.lead) v.push_back(tochange(x)); v.push_back(tochange(c.ends[0])); m = method(v); for (size_t i = 1; i < c.ends.size(); ++i) calls.push_back(tochange(c.ends[i])); }
static size_t budget(const Case &c) { // keep the enumeration small
  double f = 1; size_t d = 0; while (f < (vh::thorough() ? 2e5 : 2e4) && d < 40) { f *= c.ends.size(); ++d; if (c.ends.size() == 1 && d >= 30) break; } return d;
}
static void limits(Case &c) { size_t d = budget(c); c.hi = vh::rnd(4) ? d : vh::rnd(d + 1); c.lo = vh::rnd(2) ? 0 : vh::rnd(c.hi + 2); }
static const char *YN[] = {"", " ignore rotations"};
SECTION("C23", "basic_search") {
  for (int i = 0, N = vh::thorough() ? 1500 : 400; i < N; ++i) {
    Case c; gen(c, 3 + vh::rnd(3), 0); limits(c); c.parts.push_back(ident(c.n)); c.mutual = c.nonround = false; c.ignore = vh::rnd(2); method m; vector<change> calls; make(c, m, calls);
    INPUT("bells " << c.n << " lead " << chs(c.lead, c.n) << " lead ends " << chs(c.ends, c.n) << " leads " << c.lo << "-" << c.hi << YN[c.ignore]);
    check(c, basic_search(m, calls, std::make_pair(c.lo, c.hi), c.ignore));
  }
}
SECTION("C23", "basic_search without limits") {
  for (int i = 0, N = vh::thorough() ? 1500 : 500; i < N; ++i) {
    Case c; gen(c, 3 + vh::rnd(2), 0); c.lo = 0; c.hi = -1; if (c.n > 3 && c.lead.size() < 3) { --i; continue; } c.parts.push_back(ident(c.n)); c.mutual = c.nonround = false; c.ignore = vh::rnd(2); method m; vector<change> calls; make(c, m, calls);
    INPUT("bells " << c.n << " lead " << chs(c.lead, c.n) << " lead ends " << chs(c.ends, c.n) << YN[c.ignore]);
    check(c, basic_search(m, calls, c.ignore));
  }
}
SECTION("C23", "table_search in one part") {
  for (int i = 0, N = vh::thorough() ? 1500 : 400; i < N; ++i) {
    Case c; gen(c, 3 + vh::rnd(3), 0); limits(c); c.parts.push_back(ident(c.n)); c.mutual = c.nonround = false; c.ignore = vh::rnd(2); method m; vector<change> calls; make(c, m, calls); bool inch = vh::rnd(2), ctor = vh::rnd(3) == 0; if (ctor) inch = false;
    INPUT("bells " << c.n << " lead " << chs(c.lead, c.n) << " lead ends " << chs(c.ends, c.n) << " leads " << c.lo << "-" << c.hi << YN[c.ignore] << (inch ? " in changes" : "") << (ctor ? " old constructor" : ""));
    int f = (c.ignore ? table_search::ignore_rotations : 0) | (inch ? table_search::length_in_changes : 0); size_t L = m.length();
    std::pair<size_t, size_t> r(c.lo, c.hi); if (inch) { r.first = c.lo ? c.lo * L - vh::rnd(L) : 0; r.second = c.hi * L + vh::rnd(L); }
    if (ctor) check(c, table_search(m, calls, r, c.ignore)); else check(c, table_search(m, calls, group(row(c.n)), r, (table_search::flags)f));
  }
}
template <class T> struct Dirty { char b[sizeof(T)]; Dirty(int v) { memset(b, v, sizeof b); } }; // constructors must set every member
SECTION("C23", "table_search without limits") {
  for (int i = 0, N = vh::thorough() ? 1500 : 500; i < N; ++i) {
    Case c; gen(c, 3 + vh::rnd(2), 0); c.lo = 0; c.hi = -1; if (c.n > 3 && c.lead.size() < 3) { --i; continue; } c.parts.push_back(ident(c.n)); c.mutual = c.nonround = false; c.ignore = vh::rnd(2); method m; vector<change> calls; make(c, m, calls); int ctor = vh::rnd(3);
    INPUT("bells " << c.n << " lead " << chs(c.lead, c.n) << " lead ends " << chs(c.ends, c.n) << YN[c.ignore] << " constructor " << ctor);
    alignas(table_search) Dirty<table_search> d(vh::rnd(2) ? 0x5a : 0);
    table_search *s = ctor == 0 ? new (d.b) table_search(m, calls, (bool)c.ignore) : ctor == 1 ? new (d.b) table_search(m, calls, group(row(c.n)), c.ignore ? table_search::ignore_rotations : table_search::no_flags) : new (d.b) table_search(m, calls, std::make_pair(size_t(0), size_t(-1)), (bool)c.ignore);
    check(c, *s); s->~table_search();
  }
}
SECTION("C23", "table_search in several parts") {
  for (int i = 0, N = vh::thorough() ? 1500 : 500; i < N; ++i) {
    Case c; int n = 3 + vh::rnd(3); gen(c, n, 0); limits(c); if (c.hi > 9) c.hi = 9; c.nonround = false; c.mutual = vh::rnd(2); c.ignore = vh::rnd(2); method m; vector<change> calls; make(c, m, calls);
    vector<P> g; bool fix = vh::rnd(2); for (int k = 1 + vh::rnd(2); k; --k) { P p = fix ? rndperm(n - 1) : rndperm(n); if (fix) { for (int &x : p) ++x; p.insert(p.begin(), 0); } g.push_back(p); } 
    std::set<P> cl = closure(g, n); if (cl.size() > 24) { --i; continue; } c.parts.assign(cl.begin(), cl.end());

    bool inch = vh::rnd(2); string gs; for (auto &p : g) gs += rstr(p) + " ";
    INPUT("bells " << n << " lead " << chs(c.lead, n) << " lead ends " << chs(c.ends, n) << " part ends " << gs << " leads " << c.lo << "-" << c.hi << YN[c.ignore] << (c.mutual ? " mutually true" : "") << (inch ? " in changes" : ""));
    int f = (c.ignore ? table_search::ignore_rotations : 0) | (inch ? table_search::length_in_changes : 0) | (c.mutual ? table_search::mutually_true_parts : 0); size_t L = m.length() * cl.size();
    std::pair<size_t, size_t> r(c.lo, c.hi); if (inch) { r.first = c.lo ? c.lo * L - vh::rnd(L) : 0; r.second = c.hi * L + vh::rnd(L); }
    vector<row> gr; for (auto &p : g) gr.push_back(mk(p));
    check(c, table_search(m, calls, group(gr), r, (table_search::flags)f));
  }
}
// blocks that need not come round: every true sequence of leads that cannot be extended because the next lead is false
static void enumblocks(const Case &c, const P &start, Calls &calls, std::set<P> &had, std::set<Calls> &out) {
  P r = start; vector<P> added; bool ok = true, inner = true; std::set<P> mine;
  for (size_t i = 0; i <= c.lead.size(); ++i) { for (auto &g : c.parts) { P x = mul(g, r); if (had.count(x)) ok = false; else if (!mine.insert(x).second) inner = false; } if (i < c.lead.size()) r = mul(r, c.lead[i]); }
  if (!ok) { if (calls.size() >= c.lo) { P e = ident(c.n); for (auto &x : expand(c, calls)) e = mul(e, x); if (c.mutual || c.parts.size() == 1 || order(e) == (int)c.parts.size()) out.insert(calls); } return; }
  if (!inner || calls.size() >= c.hi) return;
  for (auto &x : mine) had.insert(x);
  for (size_t k = 0; k < c.ends.size(); ++k) { calls.push_back(k); enumblocks(c, mul(r, c.ends[k]), calls, had, out); calls.pop_back(); }
  for (auto &x : mine) had.erase(x);
}
SECTION("C23", "table_search for blocks that need not come round") {
  for (int i = 0, N = vh::thorough() ? 1000 : 300; i < N; ++i) {
    Case c; int n = 3 + vh::rnd(3); gen(c, n, 0); limits(c); if (c.hi > 9) c.hi = 9; c.ignore = false; c.nonround = true; c.mutual = true; method m; vector<change> calls; make(c, m, calls); vector<row> gr;
    if (vh::rnd(2)) { P p = rndperm(n); std::set<P> cl = closure(vector<P>(1, p), n); c.parts.assign(cl.begin(), cl.end()); gr.push_back(mk(p)); } else { c.parts.push_back(ident(n)); gr.push_back(row(n)); }
    INPUT("bells " << n << " lead " << chs(c.lead, n) << " lead ends " << chs(c.ends, n) << " part ends of " << gr[0] << " leads " << c.lo << "-" << c.hi << " non round blocks");
    table_search s(m, calls, group(gr), std::make_pair(c.lo, c.hi), (table_search::flags)(table_search::non_round_blocks | table_search::mutually_true_parts));
    std::set<Calls> want; Calls cur; std::set<P> had; enumblocks(c, ident(n), cur, had, want); std::map<Ch, Calls> by; for (auto &w : want) by[expand(c, w)] = w;
    Out o(n); s.run(o); std::set<Calls> got;
    for (auto &g : o.got) { bool known = by.count(g); CHECKM(known, "output: " << chz(g, n)); if (known) CHECKM(got.insert(by[g]).second, "output twice: " << cs(by[g])); }
    for (auto &w : want) CHECKM(got.count(w), "not output: " << cs(w));
  }
}
