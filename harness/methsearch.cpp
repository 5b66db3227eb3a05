// Bounded checks of methsearch (C26): the program itself is run (in a child process) with random
// options and its listing compared with a brute-force enumeration of every method of that length.
#include <iostream>
#include "ref.h"
#include <functional>
using std::string; using std::vector; using std::map; using std::set;
int methsearch_main(int, char **);
typedef vector<P> M; // a method: each change as an involution
struct Ran { string out, err; int rc; };
static Ran run(const vector<string> &args, const string &in = "") {
  int a[2], b[2], c[2]; if (pipe(a) || pipe(b) || pipe(c)) abort(); Ran r; r.rc = -1; fflush(stdout);
  pid_t p = fork();
  if (!p) {
    vh::dead() = true; struct itimerval z = {{0, 0}, {0, 0}}; setitimer(ITIMER_PROF, &z, 0);
    dup2(a[0], 0); dup2(b[1], 1); dup2(c[1], 2); close(a[1]); close(b[0]); close(c[0]); alarm(20);
    vector<char *> av; for (auto &s : args) av.push_back((char *)s.c_str()); av.push_back(0);
    int rc = methsearch_main(args.size(), &av[0]); std::cout.flush(); fflush(stdout); exit(rc);
  }
  close(a[0]); close(b[1]); close(c[1]);
  if (in.size() > 60000) abort();
  signal(SIGPIPE, SIG_IGN); if (write(a[1], in.data(), in.size()) < 0) {} close(a[1]);
  char buf[65536]; ssize_t k; while ((k = read(b[0], buf, sizeof buf)) > 0) r.out.append(buf, k); close(b[0]);
  while ((k = read(c[0], buf, sizeof buf)) > 0 && r.err.size() < 4000) r.err.append(buf, k); close(c[0]);
  int s; waitpid(p, &s, 0); r.rc = WIFEXITED(s) ? WEXITSTATUS(s) : 1000 + WTERMSIG(s); ++vh::progress(); return r;
}
// ---------------------------------------------------------------- changes and methods
static P rev(const P &c) { int n = c.size(); P r(n); for (int i = 0; i < n; ++i) r[n - 1 - i] = n - 1 - c[i]; return r; }
static bool pl(const P &c, int i) { return c[i] == i; }
static int places(const P &c) { int k = 0; for (size_t i = 0; i < c.size(); ++i) k += pl(c, i); return k; }
static bool internal(const P &c) { for (size_t i = 1; i + 1 < c.size(); ++i) if (pl(c, i)) return true; return false; }
static string ctext(const P &c) { string s; for (size_t i = 0; i < c.size(); ++i) if (pl(c, i)) s += SYMS[i]; return s.empty() ? "X" : s; }
static string mtext(const M &m) { string s; for (size_t i = 0; i < m.size(); ++i) s += (i ? "." : "") + ctext(m[i]); return s; }
// a change in a mask or list: external places may be left out
static string loose(const P &c) {
  int n = c.size(); vector<int> f; for (int i = 0; i < n; ++i) if (pl(c, i)) f.push_back(i);
  if (f.empty()) return string(1, "-xX"[vh::rnd(3)]);
  if (f.size() > 1 && f[0] == 0 && vh::rnd(4) == 0) f.erase(f.begin());
  if (f.size() > 1 && f.back() == n - 1 && vh::rnd(4) == 0) f.pop_back();
  string s; for (int i : f) s += SYMS[i]; return s;
}
static P readchange(const string &s, int n) {
  P c = ident(n); set<int> f; for (char x : s) { const char *q = strchr(SYMS, x); if (!q || !x || q - SYMS >= n) return P(); f.insert(q - SYMS); }
  if (s.empty()) return P();
  int first = *f.begin(), last = *f.rbegin();
  if (first % 2) f.insert(0);
  if ((n - 1 - last) % 2) f.insert(n - 1);
  int i = 0; while (i < n) { if (f.count(i)) { ++i; continue; } if (i + 1 >= n || f.count(i + 1)) return P(); std::swap(c[i], c[i + 1]); i += 2; }
  return c;
}
static bool readpn(const string &s, int n, M &m) { // changes in full, or blocks with & before the symmetrical ones
  m.clear(); size_t b = 0; bool comma = s.find(',') != string::npos || s.find('&') != string::npos;
  while (b <= s.size()) {
    size_t e = s.find(',', b); if (e == string::npos) e = s.size();
    string t = s.substr(b, e - b); bool sym = comma; if (!t.empty() && t[0] == '&') { sym = true; t.erase(0, 1); } else if (!t.empty() && t[0] == '+') { sym = false; t.erase(0, 1); } else sym = false;
    M k; string cur; for (size_t i = 0; i <= t.size(); ++i) { char x = i < t.size() ? t[i] : '.'; if (strchr(".xX-", x)) { if (!cur.empty()) { P c = readchange(cur, n); if (c.empty()) return false; k.push_back(c); cur = ""; } if (x != '.') { P c = ident(n); for (int j = 0; j + 1 < n; j += 2) std::swap(c[j], c[j + 1]); if (n % 2) return false; k.push_back(c); } } else cur += x; }
    if (k.empty()) return false;
    m.insert(m.end(), k.begin(), k.end()); if (sym) for (size_t i = k.size() - 1; i--; ) m.push_back(k[i]);
    b = e + 1;
  }
  return true;
}
static vector<P> rowsof(const M &m, int n) { vector<P> r(1, ident(n)); for (auto &c : m) r.push_back(mul(r.back(), c)); return r; }
// ---------------------------------------------------------------- what is asked for
struct O {
  int n, h, G, L; bool s, k, d, A, c, r, e, w, f, S, T, delight, y, mirror, flt, hle, hlh, rhle, rhlh; int p, l, j; char F; int chmode; set<P> changes;
  vector<vector<P> > mask; M prefix; map<int, string> match; vector<std::function<bool(const M &, const vector<P> &)> > req; vector<string> args;
  O(int n) : n(n), h(1), G(0), L(0), s(0), k(0), d(0), A(0), c(0), r(0), e(0), w(0), f(0), S(0), T(0), delight(0), y(0), mirror(0), flt(0), hle(0), hlh(0), rhle(0), rhlh(0), p(0), l(0), j(0), F('l'), chmode(0) {}
  vector<int> path; // where the treble is, row by row
  void setpath() { path.clear(); if (!h) return; for (int k = 0; 2 * k < n; ++k) { if (2 * k + 1 == n) { path.push_back(2 * k); break; } for (int g = 0; g <= G; ++g) { path.push_back(2 * k); path.push_back(2 * k + 1); } } for (int i = path.size(); i--; ) path.push_back(path[i]); L = path.size(); }
  int sec() const { return 2 * (1 + G); }
  bool cross(int i) const { return i % sec() == sec() - 1 && i != L - 1 && i != L / 2 - 1; } // the treble moves between dodging positions
};
static bool glob(const string &p, size_t i, const string &s, size_t j) {
  if (i == p.size()) return j == s.size();
  if (p[i] == '*') { for (size_t k = j; k <= s.size(); ++k) if (glob(p, i + 1, s, k)) return true; return false; }
  return j < s.size() && (p[i] == '?' || p[i] == s[j]) && glob(p, i + 1, s, j + 1);
}
// the conditions on one change
static bool change_ok(const O &o, const P &c, int i) {
  int n = o.n, a = -1, b = -1;
  if (o.h) { a = o.path[i]; b = o.path[(i + 1) % o.L]; if (c[a] != b) return false; }
  bool given = !o.mask.empty() && !o.mask[i].empty();
  if (given && std::find(o.mask[i].begin(), o.mask[i].end(), c) == o.mask[i].end()) return false;
  if (o.prefix.size() > (size_t)i && o.prefix[i] != c) return false;
  if (!given) {
    if (o.w) {
      if (n % 2 == 0) { if (i % 2 == 0 && places(c)) return false; }
      else if (o.h) { int lo = std::min(a, b), hi = std::max(a, b); if (i % 2 == 0) { for (int x = 0; x < lo; ++x) if (pl(c, x)) return false; } else for (int x = hi + 1; x < n; ++x) if (pl(c, x)) return false; }
    }
    if (o.f && (!o.h || !(a == n - 1 && b == n - 1)) && pl(c, n - 2)) return false;
  }
  if (given && !o.h) return true;
  if (o.F != 'x' && places(c) == n) return false;
  if (o.chmode && (o.chmode == 1) != (o.changes.count(c) != 0)) return false;
  if (o.l && places(c) > o.l) return false;
  if (o.j) { int run = 0; for (int x = 0; x < n; ++x) { run = pl(c, x) ? run + 1 : 0; if (run > o.j) return false; } }
  if (o.mirror && c != rev(c)) return false;
  return true;
}
static bool onecycle(const P &lh, int h) { int n = lh.size(); for (int i = 0; i < h; ++i) if (lh[i] != i) return false; int k = 0, b = h; do { b = lh[b]; ++k; } while (b != h); return k == n - h; }
static bool cyclic(const P &lh, int h) { int n = lh.size(), w = n - h; for (int i = 0; i < h; ++i) if (lh[i] != i) return false; if (lh[h] == h) return false; for (int i = 0; i < w; ++i) if ((lh[h + i] - h - (lh[h] - h) - i) % w) return false; return true; }
static bool pblh(const P &lh, int h) { // a backstroke row when the working bells plain hunt
  int n = lh.size(); P a = ident(n), b = ident(n); for (int i = h; i + 1 < n; i += 2) std::swap(a[i], a[i + 1]); for (int i = h + 1; i + 1 < n; i += 2) std::swap(b[i], b[i + 1]);
  P g = mul(a, b), r = g; do { if (r == lh) return r != ident(n); r = mul(r, g); } while (r != g); return false;
}
static bool symP(const M &m) { int L = m.size(); for (int c = 0; c < L; ++c) { bool ok = true; for (int i = 0; ok && i < L; ++i) ok = m[i] == m[((2 * c - i) % L + L) % L]; if (ok) return true; } return false; }
static bool symR(const M &m) { int L = m.size(); for (int c = 0; c < L; ++c) { bool ok = true; for (int i = 0; ok && i < L; ++i) ok = m[i] == rev(m[((c - i) % L + L) % L]); if (ok) return true; } return false; }
static bool symG(const M &m) { int L = m.size(); if (L % 2) return false; for (int i = 0; i < L; ++i) if (m[i] != rev(m[(i + L / 2) % L])) return false; return true; }
static bool leaf(const O &o, const M &m) {
  int n = o.n, L = o.L; vector<P> r = rowsof(m, n); const P &lh = r[L];
  if (o.F != 'x') for (int i = 0; i < L; ++i) if (i + 1 < L ? m[i] == m[i + 1] : !o.h && L > 1 && m[i] == m[0]) return false;
  if (o.flt) { bool two = o.s + o.k + o.d >= 2; if ((o.s || two) && !symP(m)) return false; if ((o.k || two) && !symR(m)) return false; if ((o.d || two) && !symG(m)) return false; }
  if (!o.A && !onecycle(lh, o.h)) return false;
  if (o.r && !pblh(lh, o.h)) return false;
  if (!o.r && o.c && !cyclic(lh, o.h)) return false;
  if (o.e) { for (int i = 0; i < n; ++i) if (pl(m[L - 1], i) && i > 1 && !(i == n - 1)) return false; if (!pl(m[L - 1], 0)) return false; P c = m[L - 1]; if (n % 2 == 0 ? !(places(c) == 2 && (pl(c, 1) || pl(c, n - 1))) : !(places(c) == 1 || (places(c) == 3 && pl(c, 1) && pl(c, n - 1)))) return false; }
  if (o.p) for (int x = 0; x < n; ++x) { int run = 0; for (int i = 0; i < 2 * L; ++i) { run = pl(m[i % L], x) ? run + 1 : 0; if (std::min(run, L) >= o.p) return false; } }
  if (o.S || o.T || o.delight) { int in = 0, all = 0; for (int i = 0; i < L; ++i) if (o.cross(i)) { ++all; in += internal(m[i]); } if (o.S && in != all) return false; if (o.T && in) return false; if (o.delight && (in == 0 || in == all)) return false; }
  if (o.y) for (int b = 0; b < L; b += o.sec()) for (int i = 0; i < o.sec() - 1; ++i) if (m[b + i] != m[b + o.sec() - 2 - i]) return false;
  if (o.hle || o.hlh || o.rhle || o.rhlh) {
    P e = r[L / 2 - 1], h = r[L / 2]; bool ok = false; int w = n - 1;
    auto fwd = [&](const P &x) { if (x[n - 1]) return false; for (int i = 1; i < w; ++i) if (x[i - 1] % w + 1 != x[i]) return false; return true; };
    auto bwd = [&](const P &x) { if (x[n - 1]) return false; for (int i = 1; i < w; ++i) if (x[i] % w + 1 != x[i - 1]) return false; return true; };
    if (o.hle && fwd(e)) ok = true; if (o.hlh && fwd(h)) ok = true; if (o.rhle && bwd(e)) ok = true; if (o.rhlh && bwd(h)) ok = true; if (!ok) return false;
  }
  for (auto &x : o.match) if (!glob(x.second, 0, rstr(r[x.first]), 0)) return false;
  // the rows of a lead are those after each of its changes
  if (o.F == 'l' || o.F == 'c') { int e = o.F == 'c' && lh == r[0] ? L : L + 1; set<P> s(r.begin() + 1, r.begin() + e); if ((int)s.size() != e - 1) return false; } // (a course ends with rounds)
  if (o.F == 'c' && lh != r[0]) { set<P> s; P h = ident(n); do { for (int i = 0; i < L; ++i) if (!s.insert(mul(h, r[i])).second) return false; h = mul(h, lh); } while (h != ident(n)); }
  if (o.F == 'h' && o.h) for (int b = 0; b < L; b += L / 2) { set<P> s(r.begin() + b, r.begin() + b + L / 2); if ((int)s.size() != L / 2) return false; }
  for (auto &q : o.req) if (!q(m, r)) return false;
  return true;
}
struct TooMany {};
// every method meeting the conditions, in the order of the changes listed for each place
struct Enum {
  const O &o; vector<vector<P> > cand; vector<vector<std::pair<int, bool> > > tie; M m; vector<M> out; unsigned long nodes, cap; vector<P> rows; set<P> seen;
  Enum(const O &o, unsigned long cap) : o(o), cand(o.L), tie(o.L), nodes(0), cap(cap) {
    vector<P> all; for (auto &c : allchanges(o.n)) all.push_back(invol(c, o.n));
    // in the documented order: by the text of the change, cross first
    std::sort(all.begin(), all.end(), [&](const P &a, const P &b) { vector<int> x, y; for (int i = 0; i < o.n; ++i) { if (pl(a, i)) x.push_back(i); if (pl(b, i)) y.push_back(i); } return x < y; });
    for (int i = 0; i < o.L; ++i) for (auto &c : all) if (change_ok(o, c, i)) cand[i].push_back(c);
    bool two = o.s + o.k + o.d >= 2, s = o.s || two, k = o.k || two, d = o.d || two; int L = o.L;
    if (!o.flt) for (int i = 0; i < L; ++i) { if (s) tie[i].push_back({(2 * L - 2 - i) % L, false}); if (d) tie[i].push_back({(i + L / 2) % L, true}); if (k) tie[i].push_back({((L / 2 - 2 - i) % L + L) % L, true}); }
  }
  void go() {
    if (++nodes > cap) throw TooMany();
    int i = m.size();
    if (i == o.L) { if (leaf(o, m)) { out.push_back(m); if (out.size() > 3000) throw TooMany(); } return; }
    for (auto &c : cand[i]) {
      bool ok = true;
      for (auto &t : tie[i]) if (t.first < i) ok &= m[t.first] == (t.second ? rev(c) : c); else if (t.first == i && t.second) ok &= c == rev(c);
      if (!ok) continue;
      if (o.F != 'x' && i && m[i - 1] == c) continue;
      if (o.p) for (int x = 0; ok && x < o.n; ++x) if (pl(c, x)) { int run = 1; for (int j = i; j-- && pl(m[j], x); ) ++run; if (run >= o.p) ok = false; }
      if (o.y && i % o.sec() != o.sec() - 1) { int b = i / o.sec() * o.sec(), t = b + o.sec() - 2 - (i - b); if (t < i && m[t] != c) ok = false; }
      if (o.S && o.cross(i) && !internal(c)) ok = false;
      if (o.T && o.cross(i) && internal(c)) ok = false;
      if (!ok) continue;
      m.push_back(c); P keep = rows.back(); P now = mul(keep, c); auto mt = o.match.find(i + 1);
      bool fine = mt == o.match.end() || glob(mt->second, 0, rstr(now), 0);
      bool ins = false; if (fine && (o.F == 'l' || o.F == 'c') && i + 1 < o.L) { ins = seen.insert(now).second; fine = ins; }
      if (fine) { rows.push_back(now); go(); rows.pop_back(); }
      if (ins) seen.erase(now);
      m.pop_back();
    }
  }
  bool run() { rows.assign(1, ident(o.n)); try { go(); return true; } catch (TooMany &) { return false; } }
};
static string join(const vector<string> &a) { string s; for (size_t i = 1; i < a.size(); ++i) s += " " + (a[i].find_first_of(" &|*?$()!{}<>") != string::npos ? "'" + a[i] + "'" : a[i]); return s; }
static vector<string> lines(const string &s) { vector<string> v; size_t b = 0; while (b < s.size()) { size_t e = s.find('\n', b); if (e == string::npos) e = s.size(); v.push_back(s.substr(b, e - b)); b = e + 1; } return v; }
static unsigned long kept, dropped, nonempty;
// the first word of each line is the place notation
static bool listing(const string &out, int n, vector<M> &v, string &bad) { for (auto &l : lines(out)) { M m; if (!readpn(l.substr(0, l.find('\t')), n, m)) { bad = l; return false; } v.push_back(m); } return true; }
static string sample(const vector<M> &v) { string s; for (size_t i = 0; i < v.size() && i < 2; ++i) s += " " + mtext(v[i]); return s; }
static void differ(const vector<M> &got, const vector<M> &want) {
  vector<M> a(got), b(want), x, y; std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end());
  std::set_difference(a.begin(), a.end(), b.begin(), b.end(), std::back_inserter(x)); std::set_difference(b.begin(), b.end(), a.begin(), a.end(), std::back_inserter(y));
  CHECKM(x.empty() && y.empty(), got.size() << " methods listed, expected " << want.size() << "; listed but should not be:" << sample(x) << "; not listed:" << sample(y));
}
// ---------------------------------------------------------------- the options
struct Want { int lo, hi, G; bool prin; int tight; };
static bool chance(int k) { return vh::rnd(k) == 0; }
static string list(const vector<P> &v) { string s; for (size_t i = 0; i < v.size(); ++i) s += (i ? "," : "") + ctext(v[i]); return s; }
static void finish(O &o) { o.setpath(); }
// a value for some conditions; those that could leave too many methods are made stricter by the caller
static O options(int n, int h, int G, int L, int tight) {
  O o(n); o.h = h; o.G = G; o.L = L; o.args = {"methsearch", "-b" + std::to_string(n)};
  auto flag = [&](const char *a) { o.args.push_back(a); };
  auto num = [&](const char *a, int v) { o.args.push_back(a + std::to_string(v)); };
  if (!h) { flag("-U0"); num("-n", L); } else if (G) num("-G", G);
  if (h && chance(20)) flag("-U1");
  o.setpath(); L = o.L; bool even = n % 2 == 0;
  bool sok = L % 2 == 0;
  if (sok) switch (vh::rnd(tight > 1 ? 5 : 9)) { case 0: case 1: o.s = true; break; case 2: o.d = true; break; case 3: o.k = h && L > 4; break; case 4: o.s = true; (vh::rnd(2) && L > 4 ? o.k : o.d) = h; break; }
  if (L <= 4 && o.s + o.d >= 2) o.d = false;
  if (o.s) flag(vh::rnd(2) ? "-s" : "--symmetric"); if (o.d) flag(vh::rnd(2) ? "-d" : "--double"); if (o.k) flag(vh::rnd(2) ? "-k" : "--rotational");
  if (chance(tight ? 4 : 2)) { o.A = true; flag("-A"); }
  if (h && chance(tight ? 3 : 6)) { o.r = true; flag("-r"); } else if (chance(8)) { o.c = true; flag("-c"); }
  if (h && chance(6)) { o.e = true; flag("-e"); }
  if ((h || even) && chance(tight ? 3 : 7)) { o.w = true; flag("-w"); }
  if (!o.k && !o.d && chance(7)) { o.f = true; flag("-f"); }
  if (h && even && n > 2) { int c = vh::rnd(G ? 7 : 20); if (c == 0) { o.S = true; flag("-S"); } else if (c == 1) { o.T = true; flag("-T"); } else if (c == 2) { o.delight = true; flag("--delight"); } }
  if (h && !o.k && !(o.s && o.d) && chance(G ? 5 : 25)) { o.y = true; flag("-y"); }
  if (!o.f && chance(10)) { o.mirror = true; flag("--mirror"); }
  if (chance(tight ? 2 : 3)) { o.p = 2 + vh::rnd(3); if (L < 2 * o.p) o.p = 0; } if (o.p) { if (o.p == 2 && vh::rnd(2)) flag("-p"); else num("-p", o.p); }
  if (chance(tight ? 2 : 3)) { o.l = 1 + vh::rnd(3); if (o.l == 2 && vh::rnd(2)) flag("-l"); else num("-l", o.l); }
  if (chance(tight ? 3 : 6)) { o.j = 1 + vh::rnd(2); if (o.j == 1 && vh::rnd(2)) flag("-j"); else num("-j", o.j); }
  switch (vh::rnd(9)) { case 0: o.F = 'x'; flag(vh::rnd(2) ? "-Fx" : "-Freally-none"); break; case 1: o.F = 'n'; flag(vh::rnd(2) ? "-Fn" : "-Fnone"); break; case 2: o.F = 'c'; flag("-Fc"); break; case 3: if (h) { o.F = 'h'; flag("-Fh"); } break; case 4: o.F = 'l'; flag("-Fl"); break; }
  if (h && n >= 4 && chance(12)) { switch (vh::rnd(4)) { case 0: o.hle = true; flag("--cyclic-hle"); break; case 1: o.hlh = true; flag("--cyclic-hlh"); break; case 2: o.rhle = true; flag("--rev-cyclic-hle"); break; default: o.rhlh = true; flag("--rev-cyclic-hlh"); } if (chance(3) && !o.hle) { o.hle = true; flag("--cyclic-hle"); } }
  if (chance(tight ? 3 : 6)) { // a list of changes
    vector<P> v; o.chmode = 1 + vh::rnd(2); int k = o.chmode == 1 ? 2 + vh::rnd(tight ? 4 : 7) : 1 + vh::rnd(4);
    for (int i = 0; i < k; ++i) { P c = invol(rndchange(n), n); if (o.changes.insert(c).second) v.push_back(c); if ((o.k || o.d || o.mirror) && vh::rnd(3) && o.changes.insert(rev(c)).second) v.push_back(rev(c)); }
    string s; for (size_t i = 0; i < v.size(); ++i) s += (i ? "," : "") + (vh::rnd(2) ? ctext(v[i]) : loose(v[i])); o.args.push_back("--changes=" + string(o.chmode == 2 ? "!" : "") + s);
  }
  return o;
}
// a change that fits at one place
static vector<P> fits(const O &o, int i) { vector<P> v; for (auto &c : allchanges(o.n)) { P p = invol(c, o.n); if (change_ok(o, p, i)) v.push_back(p); } return v; }
static void add_mask(O &o) {
  int L = o.L, n = o.n; vector<vector<P> > m(L); bool two = o.s + o.k + o.d >= 2, s = o.s || two, k = o.k || two, d = o.d || two; vector<bool> done(L);
  int style = vh::rnd(3), keep = 1 + vh::rnd(4);
  for (int i = 0; i < L; ++i) if (!done[i]) {
    if (style == 0 ? vh::rnd(keep) : style == 1 ? i >= 1 + (int)vh::rnd(5) : i < L - 1 - (int)vh::rnd(5)) continue;
    vector<P> f = fits(o, i); if (f.empty()) continue; vector<P> g; int t = chance(3) ? 2 + vh::rnd(2) : 1;
    for (int q = 0; q < t; ++q) { P c = f[vh::rnd(f.size())]; if (std::find(g.begin(), g.end(), c) == g.end()) g.push_back(c); }
    // above and below the treble the alternatives are taken separately, so only those that differ on one side are given
    if (o.h) { int a = std::min(o.path[i], o.path[(i + 1) % L]); set<vector<int> > x, y; for (auto &c : g) { x.insert(vector<int>(c.begin(), c.begin() + a)); y.insert(vector<int>(c.begin() + std::min(a + 1, n), c.end())); } if (x.size() > 1 && y.size() > 1) g.resize(1); }
    m[i] = g;
  }
  // positions tied together by a symmetry: only one of them is given (anywhere), so the mask agrees with it
  for (int i = 0; i < L; ++i) if (!m[i].empty()) { vector<int> t; if (s) t.push_back((2 * L - 2 - i) % L); if (d) t.push_back((i + L / 2) % L); if (k) t.push_back(((L / 2 - 2 - i) % L + L) % L); if (s && d) t.push_back((2 * L - 2 - (i + L / 2)) % L); if (two) { int a = (i + L / 2) % L; t.push_back((2 * L - 2 - a) % L); t.push_back(a); } for (int x : t) if (x != i) m[x].clear(); if (k || d || two) for (int x : t) if (x == i) { vector<P> g; for (auto &c : m[i]) if (c == rev(c)) g.push_back(c); m[i] = g; } }
  // a block with & is written as its first half and reads the same backwards: chosen so that any symmetry asked for has the same axis
  int sa = -1, sr = 0; if (!k && !d && L >= 3 && chance(3)) {
    if (!s && !o.h && vh::rnd(2)) { sr = 1 + vh::rnd((L + 1) / 2); sa = vh::rnd(L - (2 * sr - 1) + 1); } else if (L % 2 == 0) { sa = 0; sr = L / 2; }
    for (int j = 0; sa >= 0 && j + 1 < sr; ++j) { int x = sa + j, y = sa + 2 * sr - 2 - j; vector<P> f = fits(o, y), g; if (m[x].empty()) m[x] = m[y]; for (auto &c : m[x]) if (std::find(f.begin(), f.end(), c) != f.end() && change_ok(o, c, x)) g.push_back(c); m[x] = m[y] = g; }
  }
  // text: a run of unspecified changes may be written *
  bool any = false; for (auto &x : m) any |= !x.empty(); if (!any) return;
  int star = -1, starlen = 0, sb = sa + 2 * sr - 1; auto inside = [&](int i) { return sa >= 0 && i >= sa && i < sb; };
  if (vh::rnd(3)) { int a = vh::rnd(L), half = sa + sr; while (a < L && !m[a].empty()) ++a; if (a < L && !(inside(a) && a >= half)) { star = a; while (a < L && m[a].empty() && inside(a) == inside(star) && !(inside(a) && a >= half)) ++a, ++starlen; } }
  string t = vh::rnd(2) ? "" : "+"; string last;
  if (star == 0 && starlen > L) starlen = L;
  bool empty_star = star < 0 && !chance(4); int es = empty_star ? (int)vh::rnd(L) : -1; if (es >= 0 && inside(es) && es > sa + sr - 1) es = -1;
  int cut = sa < 0 && L > 1 && chance(4) ? 1 + vh::rnd(L - 1) : -1; if (star >= 0 && cut > star && cut < star + starlen) cut = -1; if (sa == 0) t = "&";
  for (int i = 0; i < L; ) {
    if (i && (i == cut || i == sa || (sa >= 0 && i == sb))) { t += ","; last = ""; if (i == sa) t += "&"; else if (!chance(3)) t += "+"; }
    string c; int adv = 1; if (i == star) { c = "*"; adv = starlen; } else if (m[i].empty()) c = "?"; else if (m[i].size() == 1) c = loose(m[i][0]); else { c = "("; for (size_t q = 0; q < m[i].size(); ++q) c += (q ? "|" : "") + loose(m[i][q]); c += ")"; }
    // a * that stands for no change at all
    if (es == i && !(inside(i) && i == sa + sr - 1)) { c = "*" + c; }
    if (!last.empty() && (isalnum(last[last.size() - 1]) && !strchr("xX", last[last.size() - 1]) && isalnum(c[0]) && !strchr("xX", c[0]) ? true : vh::rnd(2))) t += ".";
    t += c; last = c; i += adv; if (inside(i - 1) && i >= sa + sr) i = sb;
  }
  o.mask = m; o.args.push_back("-m" + t);
}
static void add_prefix(O &o) {
  int k = 1 + vh::rnd(chance(4) ? o.L : std::min(o.L, 4)); M m; O q(o); for (int i = 0; i < k; ++i) { vector<P> f = fits(q, i); if (f.empty()) return; m.push_back(f[vh::rnd(f.size())]); }
  o.prefix = m; string s; for (size_t i = 0; i < m.size(); ++i) s += (i ? "." : "") + ctext(m[i]); o.args.push_back("--prefix=" + s);
}
static void add_match(O &o) {
  int k = 1 + vh::rnd(2); for (int i = 0; i < k; ++i) { int r = 1 + vh::rnd(o.L); if (o.match.count(r)) continue; P x = rndperm(o.n); string s; int t = vh::rnd(3); int v = o.h ? o.path[r % o.L] : -1; if (v >= 0) std::swap(x[v], *std::find(x.begin(), x.end(), 0));
    if (t == 0) for (int j = 0; j < o.n; ++j) s += chance(3) ? SYMS[x[j]] : '?'; else if (t == 1) { s = string("*") + SYMS[x[o.n - 2]] + SYMS[x[o.n - 1]]; } else { s = string(1, SYMS[x[0]]) + (vh::rnd(2) ? "*" + string(1, SYMS[x[2]]) + "*" : "*"); }
    o.match[r] = s; o.args.push_back("--row-match=" + std::to_string(r) + "=" + s); }
}
static void add_require(O &o) {
  int n = o.n;
  switch (vh::rnd(5)) {
    case 0: { int k = 1 + vh::rnd(5); bool ge = vh::rnd(2); o.args.push_back("-Q$o " + string(ge ? ">=" : "==") + " " + std::to_string(k)); o.req.push_back([=](const M &, const vector<P> &r) { int t = 0; P x = ident(n); do { x = mul(x, r.back()); ++t; } while (x != ident(n)); return ge ? t >= k : t == k; }); break; }
    case 1: { int k = 2 + vh::rnd(4); o.args.push_back("-Q$b <= " + std::to_string(k)); o.req.push_back([=](const M &m, const vector<P> &) { int best = 1, L = m.size(); for (int x = 0; x < n; ++x) { int run = 0; for (int i = 0; i < 2 * L; ++i) { run = pl(m[i % L], x) ? run + 1 : 0; best = std::max(best, std::min(run, L) + 1); } } return best <= k; }); break; }
    case 2: { int k = vh::rnd(4); o.args.push_back("-Q$u > " + std::to_string(k)); o.req.push_back([=](const M &, const vector<P> &r) { int t = 0; for (int i = 0; i < n; ++i) t += r.back()[i] == i; return t > k; }); break; }
    case 3: { P x = rndperm(n); int v = vh::rnd(n); string s; for (int i = 0; i < n; ++i) s += i == v ? SYMS[x[i]] : '?'; int b = x[v]; o.args.push_back("-Q$l ~~ \"" + s + "\""); o.req.push_back([=](const M &, const vector<P> &r) { return r.back()[v] == b; }); break; }
    case 4: { int i = 1 + vh::rnd(o.L); P c = invol(rndchange(n), n); bool eq = vh::rnd(2); o.args.push_back("-Q$" + std::to_string(i) + "h " + (eq ? "eq" : "ne") + " \"" + ctext(c) + "\""); o.req.push_back([=](const M &m, const vector<P> &) { return (m[i - 1] == c) == eq; }); break; }
  }
}
static O pick(const Want &w) {
  int n = w.lo + vh::rnd(w.hi - w.lo + 1); if (w.G) n = (n + 1) / 2 * 2;
  int L = w.prin ? (chance(4) ? 1 + vh::rnd(6) : 2 * (1 + vh::rnd(n <= 4 ? 6 : n <= 5 ? 5 : 4))) : 0;
  int G = w.G ? 1 + (w.G > 1 ? vh::rnd(w.G) : 0) : 0;
  return options(n, w.prin ? 0 : 1, G, L, w.tight);
}
static unsigned long CAP = 60000;
static vector<M> reference(const O &o, bool &ok) { Enum e(o, CAP); ok = e.run(); return e.out; }
// one listing, compared in full
static void compare(const O &o) {
  bool ok; vector<M> want = reference(o, ok); if (!ok) { ++dropped; return; }
  INPUT(join(o.args)); ++kept; nonempty += !want.empty();
  Ran r = run(o.args);
  // options that leave a place in the lead with no possible change are an error
  if (want.empty() && r.rc == 1 && r.out.empty()) { bool no = false; Enum e(o, 1); for (auto &c : e.cand) no |= c.empty(); if (o.chmode && (o.k || o.d)) no = true; CHECKM(no, "refused, though every place has a possible change: " << vh::q(r.err)); return; }
  CHECKM(r.rc == 0, "exit status " << r.rc << " " << vh::q(r.err.substr(0, 200)) << "; " << want.size() << " methods expected"); if (r.rc) return;
  vector<M> got; string bad; if (!listing(r.out, o.n, got, bad)) { CHECKM(false, "cannot read " << vh::q(bad)); return; }
  differ(got, want);
  for (auto &l : lines(r.out)) { size_t t = l.find('\t'); M m; readpn(l.substr(0, t), o.n, m); if (t != string::npos && rowsof(m, o.n).back() != ident(0)) CHECKM(l.substr(t + 1) == rstr(rowsof(m, o.n).back()), "listed as " << vh::q(l)); if (chance(50)) break; }
}
static int quota(int q) { return vh::thorough() ? q * 12 : q; }
static void many(const Want &w, int k, std::function<void(O &)> more = nullptr) { unsigned long k0 = kept; for (int tries = 0; kept - k0 < (unsigned long)k && tries < 40 * k; ++tries) { O o = pick(w); if (more) more(o); compare(o); } printf("NOTE %s: %lu used, %lu not empty, %lu too large\n", vh::secname(), kept, nonempty, dropped); }
SECTION("C26", "plain") { many({3, 6, 0, false, 0}, quota(250)); }
SECTION("C26", "dodging") { many({4, 8, 2, false, 2}, quota(120)); }
SECTION("C26", "principles") { many({3, 6, 0, true, 0}, quota(250)); }
SECTION("C26", "masks") { many({4, 6, 0, false, 0}, quota(150), add_mask); }
SECTION("C26", "dodging_masks") { many({4, 8, 1, false, 2}, quota(60), add_mask); }
SECTION("C26", "principle_masks") { many({3, 6, 0, true, 0}, quota(150), add_mask); }
SECTION("C26", "requirements") { many({3, 6, 0, false, 0}, quota(150), [](O &o) { if (chance(2)) add_prefix(o); if (chance(2)) add_match(o); if (chance(2)) add_require(o); }); }
SECTION("C26", "principle_requirements") { many({3, 5, 0, true, 0}, quota(150), [](O &o) { if (chance(2)) add_prefix(o); if (chance(2)) add_match(o); if (chance(2)) add_require(o); }); }
// the order of the listing, restarting it, cutting it short and counting it
static void listed(O o) {
  bool ok; vector<M> want = reference(o, ok); if (!ok) { ++dropped; return; } if (want.empty() && chance(4) == false) return;
  ++kept; nonempty += !want.empty(); O q = o; size_t from = 0, to = want.size();
  int mode = vh::rnd(6);
  if (mode == 1 && !want.empty()) { from = vh::rnd(want.size()); q.args.push_back("--start-at=" + mtext(want[from])); }
  if (mode == 2) { size_t k = 1 + vh::rnd(want.size() + 2); to = std::min(to, k); q.args.push_back("--limit=" + std::to_string(k)); }
  if (mode == 3) q.args.push_back("--random");
  if (mode == 4) { q.args.push_back("-q"); q.args.push_back(vh::rnd(2) ? "--count" : "--raw-count"); }
  INPUT(join(q.args)); Ran r = run(q.args); if (r.rc == 1 && want.empty()) return;
  CHECKM(r.rc == 0, "exit status " << r.rc << " " << vh::q(r.err.substr(0, 200))); if (r.rc) return;
  if (mode == 4) { string n = std::to_string(want.size()); CHECKM(r.out == (q.args.back() == "--count" ? "Found " + n + " method" + "s" + "\n" : n + "\n"), vh::q(r.out) << " for " << n); return; }
  vector<M> got; string bad; if (!listing(r.out, o.n, got, bad)) { CHECKM(false, "cannot read " << vh::q(bad)); return; }
  if (mode == 3) { differ(got, want); return; }
  CHECKM(got == vector<M>(want.begin() + from, want.begin() + to), got.size() << " methods listed, expected " << to - from << "; first " << sample(got));
}
// methods read from standard input
static void filtered(O o) {
  bool ok; vector<M> want = reference(o, ok); if (!ok) { ++dropped; return; }
  O all(o.n); all.h = o.h; all.G = o.G; all.L = o.L; all.setpath(); all.A = true; all.F = 'x'; vector<vector<P> > c(o.L); for (int i = 0; i < o.L; ++i) c[i] = fits(all, i);
  vector<M> in; for (int i = 0; i < 12; ++i) { if (!want.empty() && vh::rnd(2)) { in.push_back(want[vh::rnd(want.size())]); if (vh::rnd(2)) continue; } M m; if (!in.empty() && vh::rnd(2)) m = in[vh::rnd(in.size())]; else { for (int j = 0; j < o.L; ++j) m.push_back(c[j][vh::rnd(c[j].size())]); } m[vh::rnd(o.L)] = c[0][0]; for (int j = 0; j < o.L; ++j) if (std::find(c[j].begin(), c[j].end(), m[j]) == c[j].end()) m[j] = c[j][vh::rnd(c[j].size())]; in.push_back(m); }
  std::random_shuffle(in.begin(), in.end(), [](int k) { return (int)vh::rnd(k); });
  bool inv = vh::rnd(3) == 0; O q = o; q.args.push_back(vh::rnd(2) ? "-I" : "--filter"); if (inv) q.args.push_back("--invert-filter"); q.args.push_back("-R$p\t$a");
  string text, expect; set<M> w(want.begin(), want.end()); vector<string> pay; vector<M> ms; int id = 0;
  for (auto &m : in) { string p = "no " + std::to_string(id++); text += mtext(m) + "\t" + p + "\n"; if (w.count(m) != inv) { pay.push_back(p); ms.push_back(m); } }
  INPUT(join(q.args) << " < " << vh::q(text)); ++kept; nonempty += !ms.empty(); Ran r = run(q.args, text);
  if (r.rc == 1 && want.empty() && r.out.empty()) return;
  CHECKM(r.rc == 0, "exit status " << r.rc << " " << vh::q(r.err.substr(0, 200))); if (r.rc) return;
  vector<M> got; string bad; if (!listing(r.out, o.n, got, bad)) { CHECKM(false, "cannot read " << vh::q(bad)); return; }
  vector<string> gp; for (auto &l : lines(r.out)) gp.push_back(l.substr(l.find('\t') + 1));
  CHECKM(got == ms && gp == pay, vh::q(r.out) << " when the methods to be listed are " << ms.size() << sample(ms));
}
static void each(const Want &w, int k, void (*f)(O)) { unsigned long k0 = kept; for (int tries = 0; kept - k0 < (unsigned long)k && tries < 40 * k; ++tries) { O o = pick(w); if (chance(3)) add_mask(o); if (chance(4)) add_prefix(o); if (chance(4)) add_require(o); f(o); } printf("NOTE %s: %lu used, %lu not empty, %lu too large\n", vh::secname(), kept, nonempty, dropped); }
SECTION("C26", "order") { each({3, 6, 0, false, 0}, quota(120), listed); }
SECTION("C26", "principle_order") { each({3, 5, 0, true, 0}, quota(120), listed); }
SECTION("C26", "filter") { each({3, 6, 0, false, 0}, quota(100), filtered); }
SECTION("C26", "principle_filter") { each({3, 6, 0, true, 0}, quota(100), filtered); }
// ... of any length
static void filtered_lengths() {
  O o = options(2 + 1 + vh::rnd(3), 0, 0, 2 + 2 * vh::rnd(3), 0); o.k = o.d = false; for (size_t i = 0; i < o.args.size(); ) { const string &a = o.args[i]; if (a.compare(0, 2, "-n") == 0 || a == "-d" || a == "--double" || a == "-k" || a == "--rotational") o.args.erase(o.args.begin() + i); else ++i; }
  if (vh::rnd(2) && !o.A) { o.A = true; o.args.push_back("-A"); }
  auto ok = [&](const M &m) { O q(o); q.L = m.size(); q.setpath(); Enum e(q, 60000); for (int i = 0; i < q.L; ++i) { bool in = std::find(e.cand[i].begin(), e.cand[i].end(), m[i]) != e.cand[i].end(); e.cand[i].clear(); if (in) e.cand[i].push_back(m[i]); } return e.run() && !e.out.empty(); };
  vector<M> in; for (int i = 0; i < 14; ++i) {
    int L = o.s ? 2 * (1 + vh::rnd(4)) : 1 + vh::rnd(8); if (o.p && L < 2 * o.p) continue; O q(o); q.L = L; q.setpath(); M m;
    Enum e(q, 3000); bool none = false; for (auto &c : e.cand) { std::random_shuffle(c.begin(), c.end(), [](int k) { return (int)vh::rnd(k); }); if (c.size() > 3) c.resize(3); none |= c.empty(); }
    if (o.s && !none) { for (int j = 0; j + 1 < L / 2; ++j) e.cand[L - 2 - j] = e.cand[j]; }
    if (!none && vh::rnd(3) && e.run() && !e.out.empty()) m = e.out[vh::rnd(e.out.size())]; else for (int j = 0; j < L; ++j) m.push_back(invol(rndchange(o.n), o.n));
    in.push_back(m);
  }
  if (in.empty()) return; string text; for (auto &m : in) text += mtext(m) + "\n"; vector<M> want; for (auto &m : in) if (ok(m)) want.push_back(m);
  O q = o; q.args.push_back("-I"); INPUT(join(q.args) << " < " << vh::q(text)); ++kept; nonempty += want.size() > 1; Ran r = run(q.args, text); if (r.rc == 1 && want.empty() && r.out.empty()) return;
  CHECKM(r.rc == 0, "exit status " << r.rc << " " << vh::q(r.err.substr(0, 200))); if (r.rc) return;
  vector<M> got; string bad; if (!listing(r.out, o.n, got, bad)) { CHECKM(false, "cannot read " << vh::q(bad)); return; }
  CHECKM(got == want, got.size() << " methods passed on " << sample(got) << " expected " << want.size() << sample(want));
}
SECTION("C26", "filter_lengths") { for (int i = 0; i < quota(100); ++i) filtered_lengths(); printf("NOTE %s: %lu used, %lu with several methods passed on\n", vh::secname(), kept, nonempty); }
