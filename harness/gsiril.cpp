// Bounded checks of gsiril (C25): generated scripts are run by the program itself (in a
// child process) and by an independent interpreter; output and exit status must agree.
#include <iostream>
#include "ref.h"
#include <memory>
#include <functional>
using std::string; using std::vector; using std::map;
int gsiril_main(int, char **);
struct E; typedef std::shared_ptr<E> X;
struct E { string k, s; long n; vector<X> a; vector<P> pn; P t; E() : n(0) {} };
static X mk_(const string &k, vector<X> a = vector<X>(), const string &s = "", long n = 0) { X e(new E); e->k = k; e->a = a; e->s = s; e->n = n; return e; }
struct Discard {}; struct Error {}; struct Script { bool abort; };
typedef long long LL;
// ---------------------------------------------------------------- the interpreter
struct Global {
  map<string, X> sym; int bells, extents; P rounds; size_t lo, hi; bool E_, filter; int quiet; string out; bool failed; long steps; string first; bool proved;
  Global() : bells(0), extents(1), lo(0), hi(0), E_(false), filter(false), quiet(0), failed(false), steps(0), proved(false) {}
};
struct Ctx {
  Global &g; P r, last; map<P, int> cnt; size_t size, dups, bad; int maxocc; bool proving, silent, out; size_t hi; map<string, X> dyn; const Ctx *parent;
  Ctx(Global &g) : g(g), size(0), dups(0), bad(0), maxocc(g.extents), proving(true), silent(g.E_ || g.filter || g.quiet >= 2), out(true), hi(g.hi), parent(0) { if (!g.bells) throw Error(); r = mul(ident(g.bells), g.rounds); }
  Ctx clone() const { Ctx c(*this); c.maxocc = -1; c.bad = 0; c.hi = 0; c.silent = true; c.out = false; c.parent = this; return c; }
  void step() { if (++g.steps > 30000) throw Discard(); }
  X lookup(const string &s) const { auto i = dyn.find(s); if (i != dyn.end()) return i->second; auto j = g.sym.find(s); if (j == g.sym.end()) throw Error(); return j->second; }
  bool defined(const string &s) const { return dyn.count(s) || g.sym.count(s); }
  bool isrounds() const { if (r != g.rounds) return false; auto i = cnt.find(r); return (i == cnt.end() ? 0 : i->second) == g.extents; }
  void put(const string &s) const { if (!silent && out) g.out += s; }
  void dosym(const string &s, int dir = 1) { exec(lookup(s), dir); }
  void final_(const string &s) { try { dosym(s); } catch (Script &) {} }
  void change(const P &c) {
    r = mul(r, c); step(); if (size > 3000) throw Discard();
    if (!proving) return;
    int k = ++cnt[r]; ++size; if (k > 1) ++dups; if (maxocc != -1 && k > maxocc) ++bad;
    bool ok = bad == 0;
    bool s = silent; if (g.E_ && !g.filter) silent = false;
    dosym("everyrow"); silent = s;
    if (hi && size > hi) dosym("toolong");
    if (isrounds()) dosym("rounds");
    if (!ok) dosym("conflict");
  }
  string subst(const string &t, bool &ab, bool &nonl) {
    string o;
    for (size_t i = 0; i < t.size(); ++i) {
      if (t[i] == '@') o += rstr(r);
      else if (t[i] == '#') o += std::to_string(size);
      else if (t[i] == '$' && i + 1 < t.size() && t[i + 1] == '{') { size_t j = t.find('}', i); Ctx c = clone(); o += c.str(c.lookup(t.substr(i + 2, j - i - 2))); i = j; }
      else if (t[i] == '$' && i + 1 < t.size() && t[i + 1] == '$') { ab = true; ++i; }
      else if (t[i] == '$') o += std::to_string(dups);
      else if (t[i] == '\\') { if (i + 1 == t.size()) nonl = true; else { o += t[i]; o += t[++i]; } }
      else o += t[i];
    }
    return o;
  }
  static string esc(const string &t) { string o; for (size_t i = 0; i < t.size(); ++i) { if (t[i] != '\\') { o += t[i]; continue; } char c = t[++i]; o += c == 'n' ? '\n' : c == 't' ? '\t' : c == '\'' ? '"' : c; } return o; }
  string str(const X &e, bool *nonl = 0) {
    step();
    if (e->k == "str") { if (e->n == 1) return e->s; bool a = false, n = false; string s = subst(e->s, a, n); if (nonl) *nonl = n; return s; }
    if (e->k == "sym") return str(lookup(e->s), nonl);
    if (e->k == "list") { for (size_t i = 0; i + 1 < e->a.size(); ++i) exec(e->a[i], 1); return str(e->a.back()); }
    if (e->k == "cat") { string s; for (auto &x : e->a) s += str(x); return s; }
    if (isint(e)) return std::to_string(intv(e));
    throw Error();
  }
  static bool isint(const X &e) { return e->k == "num" || e->k == "bells" || e->k == "length" || e->k == "arith" || e->k == "inc" || e->k == "call"; }
  static bool isbool(const X &e) { return e->k == "pat" || e->k == "isrounds" || e->k == "proving" || e->k == "cmp" || e->k == "and" || e->k == "or" || e->k == "not" || e->k == "defined" || e->k == "bool"; }
  // 'i'nteger, 'b'oolean, or something else
  char type(const X &e) { if (e->k == "sym") return type(lookup(e->s)); if (e->k == "list") return type(e->a.back()); return isint(e) ? 'i' : isbool(e) ? 'b' : 's'; }
  LL intv(const X &e) {
    step();
    if (e->k == "num") return e->n;
    if (e->k == "bells") return g.bells;
    if (e->k == "length") return size;
    if (e->k == "sym") return intv(lookup(e->s));
    if (e->k == "list") { for (size_t i = 0; i + 1 < e->a.size(); ++i) exec(e->a[i], 1); return intv(e->a.back()); }
    if (e->k == "inc") { LL v = intv(lookup(e->s)) + e->n; dyn[e->s] = mk_("num", {}, "", v); return v; }
    if (e->k == "call") { if (e->s == "rowno") return size; LL v = intv(e->a[0]); if (e->s == "at") { if (v < 1 || v > g.bells) throw Error(); return r[v - 1] + 1; } for (size_t i = 0; i < r.size(); ++i) if (r[i] + 1 == v) return i + 1; throw Discard(); }
    if (e->k == "arith") { // usual precedence, left to right
      vector<LL> v; for (auto &x : e->a) v.push_back(intv(x)); string ops = e->s;
      for (size_t i = 0; i < ops.size(); ) if (ops[i] == '*' || ops[i] == '/' || ops[i] == '%') { if (ops[i] != '*' && v[i + 1] == 0) throw Discard(); v[i] = ops[i] == '*' ? v[i] * v[i + 1] : ops[i] == '/' ? v[i] / v[i + 1] : v[i] % v[i + 1]; v.erase(v.begin() + i + 1); ops.erase(i, 1); } else ++i;
      LL t = v[0]; for (size_t i = 0; i < ops.size(); ++i) t += ops[i] == '+' ? v[i + 1] : -v[i + 1]; return t;
    }
    throw Error();
  }
  static bool glob(const string &p, size_t i, const string &s, size_t j) {
    if (i == p.size()) return j == s.size();
    if (p[i] == '*') { for (size_t k = j; k <= s.size(); ++k) if (glob(p, i + 1, s, k)) return true; return false; }
    if (j == s.size()) return false;
    if (p[i] == '?') return glob(p, i + 1, s, j + 1);
    if (p[i] == '[') { size_t e = p.find(']', i); return p.substr(i + 1, e - i - 1).find(s[j]) != string::npos && glob(p, e + 1, s, j + 1); }
    return p[i] == s[j] && glob(p, i + 1, s, j + 1);
  }
  bool boolv(const X &e) {
    step();
    if (e->k == "pat") { if (e->n != g.bells) throw Discard(); return glob(e->s, 0, rstr(r), 0); }
    if (e->k == "isrounds") return isrounds();
    if (e->k == "proving") return proving;
    if (e->k == "defined") return defined(e->s);
    if (e->k == "bool") return e->n;
    if (e->k == "not") return !boolv(e->a[0]);
    if (e->k == "and") { for (auto &x : e->a) if (!boolv(x)) return false; return true; }
    if (e->k == "or") { for (auto &x : e->a) if (boolv(x)) return true; return false; }
    if (e->k == "sym") return boolv(lookup(e->s));
    if (e->k == "list") { for (size_t i = 0; i + 1 < e->a.size(); ++i) exec(e->a[i], 1); return boolv(e->a.back()); }
    if (e->k == "cmp") {
      char l = type(e->a[0]), r = type(e->a[1]); int c;
      if ((l == 'b') != (r == 'b')) throw Error();
      if (l == 'b') { bool x = boolv(e->a[0]), y = boolv(e->a[1]); if (e->s != "==" && e->s != "!=") throw Error(); c = x != y; }
      else if (l == 'i' && r == 'i') { LL x = intv(e->a[0]), y = intv(e->a[1]); c = x < y ? -1 : x > y; }
      else { string x = str(e->a[0]), y = str(e->a[1]); if ((l == 'i' || r == 'i') && e->s != "==" && e->s != "!=") throw Error(); c = x < y ? -1 : x > y; }
      return e->s == "==" ? c == 0 : e->s == "!=" ? c != 0 : e->s == "<" ? c < 0 : e->s == ">" ? c > 0 : e->s == "<=" ? c <= 0 : c >= 0;
    }
    throw Error();
  }
  vector<P> pnv(const X &e) {
    step();
    if (e->k == "pn") return e->pn;
    if (e->k == "sym") return pnv(lookup(e->s));
    if (e->k == "list") { vector<P> v; for (auto &x : e->a) { vector<P> w = pnv(x); v.insert(v.end(), w.begin(), w.end()); } return v; }
    if (e->k == "rep" && e->n >= 0) { vector<P> v; for (long i = 0; i < e->n; ++i) { vector<P> w = pnv(e->a[0]); v.insert(v.end(), w.begin(), w.end()); } return v; }
    if (e->k == "rev") { vector<P> v = pnv(e->a[0]); std::reverse(v.begin(), v.end()); return v; }
    if (e->k == "merge") { // a block with some of its changes replaced: at the end, or n before the end, or from the nth
      vector<P> v = pnv(e->a[0]), w = pnv(e->a[1]); long at;
      if (e->s == "") at = (long)v.size() - (long)w.size();
      else if (e->s == "<<") at = (long)v.size() - 1 - e->n;
      else at = e->n - 1;
      if (w.empty() || v.empty()) throw Discard();
      if (at < 0 || at + w.size() > v.size() || (e->s == ">>" && e->n == 0)) throw Error();
      std::copy(w.begin(), w.end(), v.begin() + at); return v;
    }
    throw Error();
  }
  struct Deep { int &d; Deep(int &d) : d(d) { if (++d > 150) { --d; throw Discard(); } } ~Deep() { --d; } };
  void exec(const X &e, int dir) {
    static int level = 0; Deep deep(level);
    step();
    if (e->k == "nop") return;
    if (e->k == "pn") { if (dir > 0) for (size_t i = 0; i < e->pn.size(); ++i) change(e->pn[i]); else for (size_t i = e->pn.size(); i--; ) change(e->pn[i]); }
    else if (e->k == "tr") { if (dir < 0) throw Discard(); change(e->t); }
    else if (e->k == "sym") dosym(e->s, dir);
    else if (e->k == "list") { if (dir > 0) for (auto &x : e->a) exec(x, dir); else for (size_t i = e->a.size(); i--; ) exec(e->a[i], dir); }
    else if (e->k == "rep" || e->k == "mult") {
      if (e->k == "mult" && type(e->a[0]) == 'i') throw Discard();
      bool had = defined("loop_counter"); X old = had ? lookup("loop_counter") : X();
      auto restore = [&] { if (had) dyn["loop_counter"] = old; else dyn.erase("loop_counter"); };
      try { for (long i = 1; e->n == -1 || i <= e->n; ++i) { step(); dyn["loop_counter"] = mk_("num", {}, "", i); exec(e->a[0], dir); } }
      catch (Script &s) { restore(); if (s.abort) throw; return; }
      restore();
    }
    else if (e->k == "rev") exec(e->a[0], -dir);
    else if (e->k == "str" || e->k == "echo") {
      bool ab = false, nonl = false; string s = e->n == 1 ? e->s : subst(e->s, ab, nonl); s = esc(s); if (!nonl) s += '\n';
      if (e->k == "echo" && parent) parent->put(s); else put(s);
      if (ab) { Script x = {true}; throw x; }
    }
    else if (e->k == "cat") put(str(e));
    else if (e->k == "alt") {
      if (dir < 0) throw Error();
      for (size_t i = 0; i < e->a.size(); i += 2) {
        bool v = false;
        { Ctx c = clone(); try { v = !e->a[i] || c.boolv(e->a[i]); } catch (Script &) { v = false; } }
        if (v) { exec(e->a[i + 1], dir); break; }
      }
    }
    else if (e->k == "set") { if (dir < 0) throw Error(); dyn[e->s] = e->a[0]; }
    else if (e->k == "imm") { if (dir < 0) throw Error(); X v = imm(e->a[0]); dyn[e->s] = v; }
    else if (e->k == "break") { if (dir < 0) throw Error(); Script x = {false}; throw x; }
    else if (e->k == "endproof") { if (proving) last = r; proving = false; }
    else if (e->k == "merge") { vector<P> v = pnv(e); if (dir > 0) for (auto &c : v) change(c); else for (size_t i = v.size(); i--; ) change(v[i]); }
    else if (isint(e)) { if (dir < 0) throw Error(); if (e->k == "call") throw Discard(); intv(e); }
    else if (isbool(e)) { if (dir < 0) throw Error(); boolv(e); }
    else throw Discard();
  }
  X imm(const X &e) { char t = type(e); if (t == 'i') return mk_("num", {}, "", intv(e)); if (t == 'b') return mk_("bool", {}, "", boolv(e)); if (e->k == "str" || e->k == "cat") { return mk_("str", {}, str(e), 1); } throw Discard(); }
};
static void prove(Global &g, const X &e) {
  g.proved = true; Ctx c(g);
  try { c.dosym("start"); c.exec(e, 1); c.dosym("finish"); }
  catch (Script &s) { if (!s.abort) throw Discard(); c.final_("abort"); g.failed = true; return; }
  bool ok = c.bad == 0; P lr = c.proving ? c.r : c.last;
  if (!ok) { c.final_("false"); g.failed = true; }
  else if (lr != g.rounds) { c.final_("notround"); g.failed = true; }
  else if (g.lo && c.size < g.lo) { c.final_("tooshort"); g.failed = true; }
  else { if (g.quiet) c.silent = true; c.final_("true"); }
}
// ---------------------------------------------------------------- statements
struct S; typedef std::shared_ptr<S> Y;
struct S { string k, s; X e; vector<Y> b; vector<X> c; long n, m; P t; S() : n(0), m(0) {} };
static void setbells(Global &g, int b) { if (b > (int)g.rounds.size()) g.rounds = mul(g.rounds, ident(b)); else if (b < (int)g.rounds.size()) { if (g.rounds != ident(g.rounds.size())) g.out += "Warning: Rounds reset"; g.rounds = ident(b); } g.bells = b; }
static void run(Global &g, const Y &y) {
  if (y->k == "bells") setbells(g, y->n);
  else if (y->k == "extents") g.extents = y->n;
  else if (y->k == "rows") { g.lo = y->n; g.hi = y->m; g.sym["min_length"] = mk_("num", {}, "", g.lo); g.sym["max_length"] = mk_("num", {}, "", g.hi); }
  else if (y->k == "rounds") g.rounds = y->t;
  else if (y->k == "def") { if (!g.sym.count(y->s) && g.first.empty()) g.first = y->s; g.sym[y->s] = y->e; }
  else if (y->k == "ddef") { if (!g.sym.count(y->s) || g.sym[y->s]->k == "nop") { if (g.first.empty()) g.first = y->s; g.sym[y->s] = y->e; } }
  else if (y->k == "idef") { Ctx c(g); X v = c.imm(y->e); if (!g.sym.count(y->s) && g.first.empty()) g.first = y->s; g.sym[y->s] = v; }
  else if (y->k == "prove") prove(g, y->e);
  else if (y->k == "echo") { Ctx c(g); if (g.quiet < 2) c.silent = false; bool nonl = false; string s = y->e->k == "str" ? c.str(y->e, &nonl) : c.str(y->e); g.out += s; if (!nonl) g.out += '\n'; }
  else if (y->k == "if") { for (size_t i = 0; i < y->c.size(); ++i) { bool v = true; if (y->c[i]) { Ctx c(g); c.silent = true; v = c.boolv(y->c[i]); } if (v) { run(g, y->b[i]); break; } } }
  else if (y->k == "block") { for (auto &z : y->b) run(g, z); }
  else if (y->k == "for") { for (auto &x : y->c) { if (!g.sym.count(y->s) && g.first.empty()) g.first = y->s; g.sym[y->s] = x; run(g, y->b[0]); } }
}
// ---------------------------------------------------------------- text
static string sp() { return vh::rnd(4) ? "" : vh::rnd(3) ? " " : "  "; }
static string render(const X &e, int ctx); // ctx 0: anything, 1: an element of a list, 2: an operand
static bool tight(const X &e) { const string &k = e->k; return k == "pn" || k == "tr" || k == "sym" || k == "str" || k == "alt" || k == "break" || k == "endproof" || k == "isrounds" || k == "proving" || k == "bool" || k == "pat" || k == "num" || k == "bells" || k == "length" || k == "call" || k == "defined"; }
static string paren(const X &e, int ctx) { return ctx == 2 ? (tight(e) ? render(e, 0) : "(" + sp() + render(e, 0) + sp() + ")") : render(e, ctx); }
static string nl() { return vh::rnd(8) ? sp() : vh::rnd(4) ? "\n  " : " // more\n"; }
static string render(const X &e, int ctx) {
  const string &k = e->k; string s;
  if (k == "pn" || k == "tr") return e->s;
  if (k == "sym" || k == "bells" || k == "length" || k == "break" || k == "endproof" || k == "proving") return k == "sym" ? e->s : k;
  if (k == "isrounds") return "rounds";
  if (k == "bool") return e->n ? "true" : "false";
  if (k == "num") return std::to_string(e->n);
  if (k == "pat") return "/" + e->s + "/";
  if (k == "str") return "\"" + e->s + "\"";
  if (k == "echo") { s = "echo \"" + e->s + "\""; return ctx == 2 ? "(" + s + ")" : s; }
  if (k == "defined") return vh::rnd(2) ? "defined(" + e->s + ")" : "defined " + e->s;
  if (k == "call") return e->s + "(" + (e->a.empty() ? "" : render(e->a[0], 1)) + ")";
  if (k == "inc") return string(e->n > 0 ? "++" : "--") + e->s;
  if (k == "alt") { s = "{ "; for (size_t i = 0; i < e->a.size(); i += 2) { if (i) s += "; "; if (e->a[i]) s += render(e->a[i], 0) + ":" + nl(); s += render(e->a[i + 1], 0); } return s + (vh::rnd(3) ? "" : ";") + " }"; }
  bool wrap = false;
  if (k == "list") { for (size_t i = 0; i < e->a.size(); ++i) s += (i ? "," + nl() : "") + render(e->a[i], 1); wrap = ctx >= 1; if (ctx == 1 && vh::rnd(2)) wrap = false; }
  else if (k == "rep") { X c = e->a[0]; bool bare = c->k == "rep" || c->k == "rev" || tight(c); if (e->n == -1) s = "repeat "; else s = std::to_string(e->n) + sp(); string in = bare && c->k != "num" ? render(c, 0) : "(" + nl() + render(c, 0) + sp() + ")"; if (isdigit(in[0]) && isdigit(s[s.size() - 1])) s += " "; s += in; }
  else if (k == "mult") { string x = paren(e->a[0], 2); s = vh::rnd(2) ? std::to_string(e->n) + " * " + x : x + " * " + std::to_string(e->n); }
  else if (k == "rev") { X c = e->a[0]; s = "~" + (c->k == "rev" || c->k == "rep" ? render(c, 0) : paren(c, 2)); }
  else if (k == "set") { s = e->s + " = " + render(e->a[0], 0); wrap = ctx >= 1; }
  else if (k == "imm") { s = e->s + " := " + render(e->a[0], 0); wrap = ctx >= 1; }
  else if (k == "merge") { s = paren(e->a[0], 2) + " & " + paren(e->a[1], 2); if (e->s != "") s += " " + e->s + " " + std::to_string(e->n); }
  else if (k == "arith") { for (size_t i = 0; i < e->a.size(); ++i) s += (i ? string(" ") + (e->s[i - 1] == '/' ? '\x01' : e->s[i - 1]) + " " : "") + paren(e->a[i], 2); }
  else if (k == "cat") { for (size_t i = 0; i < e->a.size(); ++i) s += (i ? " . " : "") + paren(e->a[i], 2); }
  else if (k == "cmp") s = paren(e->a[0], e->a[0]->k == "arith" ? 1 : 2) + " " + e->s + " " + paren(e->a[1], e->a[1]->k == "arith" ? 1 : 2);
  else if (k == "not") s = "!" + paren(e->a[0], 2);
  else if (k == "and" || k == "or") { for (size_t i = 0; i < e->a.size(); ++i) { X c = e->a[i]; bool bare = tight(c) || c->k == "not" || c->k == "cmp" || (k == "or" && c->k == "and"); s += (i ? k == "and" ? " && " : " || " : "") + (bare ? render(c, 0) : "(" + render(c, 0) + ")"); } }
  else s = "?" + k;
  if (k != "list" && k != "set" && k != "imm" && ctx == 2) wrap = false; // the caller adds the brackets
  return wrap ? "(" + sp() + s + sp() + ")" : s;
}
static string text(const Y &y);
static string block(const Y &y, const string &sep) { string s; for (auto &z : y->b) s += text(z) + sep; return s; }
static string text(const Y &y) {
  const string &k = y->k;
  if (k == "bells") return std::to_string(y->n) + " bells";
  if (k == "extents") return std::to_string(y->n) + " extents";
  if (k == "rows") return y->n == y->m && vh::rnd(2) ? std::to_string(y->n) + " rows" : std::to_string(y->n) + " to " + std::to_string(y->m) + " rows";
  if (k == "rounds") return "rounds '" + rstr(y->t) + "'";
  if (k == "def" || k == "ddef" || k == "idef") return y->s + sp() + (k == "def" ? "=" : k == "ddef" ? "?=" : ":=") + " " + (y->e->k == "nop" ? "" : render(y->e, 0));
  if (k == "prove") return "prove " + render(y->e, 0);
  if (k == "echo") return "echo " + render(y->e, 0);
  if (k == "for") { string s = "foreach [" ; for (size_t i = 0; i < y->c.size(); ++i) s += (i ? ", " : "") + render(y->c[i], 1); return s + "] as " + y->s + "\n" + block(y->b[0], "\n") + "endfor"; }
  if (k == "if") { string s; for (size_t i = 0; i < y->c.size(); ++i) { s += i == 0 ? "if " : y->c[i] ? "elseif " : "else"; if (y->c[i]) s += render(y->c[i], 0); s += "\n" + block(y->b[i], "\n"); } return s + "endif"; }
  return "?" + k;
}
// ---------------------------------------------------------------- generation
static Y st(const string &k, const string &s = "", X e = X(), long n = 0, long m = 0) { Y y(new S); y->k = k; y->s = s; y->e = e; y->n = n; y->m = m; return y; }
struct Gen {
  int n; // bells
  vector<string> blocks, touches, ints, strs;
  bool div;
  Gen(int n) : n(n), div(false) {}
  // the text of one change, with external places sometimes left out
  string one(const P &c) {
    vector<int> f; for (int i = 0; i < n; ++i) if (c[i] == i) f.push_back(i);
    if (f.empty()) return string(1, "-xX"[vh::rnd(3)]);
    if (f.size() > 1 && f[0] == 0 && vh::rnd(4) == 0) f.erase(f.begin());
    if (f.size() > 1 && f.back() == n - 1 && vh::rnd(4) == 0) f.pop_back();
    bool run = f.size() >= 2; for (size_t i = 1; i < f.size(); ++i) run &= f[i] == f[i - 1] + 1;
    if (run && vh::rnd(5) == 0) return string(1, SYMS[f[0]]) + ".." + SYMS[f.back()];
    string s; for (int i : f) s += vh::rnd(12) ? string(1, SYMS[i]) : vh::rnd(2) ? "{" + std::to_string(i + 1) + "}" : i == n - 1 ? "{N}" : "{N-" + std::to_string(n - 1 - i) + "}";
    return s;
  }
  string many(const vector<P> &v) { string s; for (size_t i = 0; i < v.size(); ++i) { string t = one(v[i]); bool x = t == "-" || t == "x" || t == "X"; if (!s.empty() && !(x && vh::rnd(2)) && !(strchr("-xX", s[s.size() - 1]) && vh::rnd(2))) s += "."; s += t; } return s; }
  P chg() { for (;;) { vector<int> c = rndchange(n); if (!c.empty() || vh::rnd(20) == 0) return invol(c, n); } }
  X pn(int len) {
    X e = mk_("pn"); vector<P> h; for (int i = 0; i < len; ++i) h.push_back(chg());
    if (vh::rnd(2)) { e->s = "+" + many(h); e->pn = h; }
    else { e->s = "&" + many(h); e->pn = h; for (size_t i = h.size() - 1; i--; ) e->pn.push_back(h[i]); }
    return e;
  }
  X arith(int depth) {
    int k = vh::rnd(depth > 0 ? 9 : 4);
    if (k == 0) return mk_("num", {}, "", vh::rnd(12));
    if (k == 1) return mk_(vh::rnd(2) ? "length" : "bells");
    if (k == 2 && !ints.empty()) return mk_("sym", {}, ints[vh::rnd(ints.size())]);
    if (k == 3) { if (vh::rnd(4) == 0) return mk_("call", {}, "rowno"); X e = mk_("call", {}, vh::rnd(2) ? "at" : "pos"); e->a.push_back(mk_("num", {}, "", 1 + vh::rnd(n))); return e; }
    if (k == 4 && !ints.empty()) return mk_("inc", {}, ints[vh::rnd(ints.size())], vh::rnd(2) ? 1 : -1);
    if (k < 4) return mk_("num", {}, "", vh::rnd(30));
    X e = mk_("arith"); int t = 2 + vh::rnd(3); e->a.push_back(arith(depth - 1));
    for (int i = 1; i < t; ++i) { char op = "+-+-*%/"[vh::rnd(div ? 7 : 6)]; e->s += op; e->a.push_back(op == '%' || op == '/' ? mk_("num", {}, "", 1 + vh::rnd(5)) : arith(depth - 1)); }
    return e;
  }
  X pat() { X e = mk_("pat"); e->n = n; P p = rndperm(n); string s; int style = vh::rnd(4);
    if (style == 0) { s = string(1, SYMS[p[0]]) + "*"; } else if (style == 1) s = string("*") + SYMS[p[0]]; else if (style == 2) s = "*" + string(1, SYMS[p[0]]) + SYMS[p[1]] + "*";
    else for (int i = 0; i < n; ++i) s += vh::rnd(2) ? string("?") : vh::rnd(5) == 0 ? "[" + string(1, SYMS[p[i]]) + SYMS[p[(i + 1) % n]] + "]" : string(1, SYMS[i]);
    e->s = s; return e; }
  X str() { static const char *const t[] = {"@", "  @ #", "#", "- @\\", "$", "end", "\\t@", "a\\nb", "[$:#]\\", "q\\'q", "", "\\\\", "x $$", "${loop_counter}", "v"}; X e = mk_("str"); e->s = t[vh::rnd(vh::rnd(3) ? 9 : 15)]; if (e->s == "v") e->s = ints.empty() ? "@" : "${" + ints[vh::rnd(ints.size())] + "} rows \\"; return e; }
  X cond(int depth) {
    int k = vh::rnd(depth > 0 ? 13 : 6);
    if (k <= 1) return pat();
    if (k == 2) return mk_("isrounds");
    if (k == 3) return vh::rnd(3) ? mk_("isrounds") : mk_("proving");
    if (k == 4) { vector<string> all = ints; all.push_back("nosuch"); all.push_back("loop_counter"); return mk_("defined", {}, all[vh::rnd(all.size())]); }
    if (k == 5) return mk_("bool", {}, "", vh::rnd(2));
    static const char *const ops[] = {"==", "!=", "<", ">", "<=", ">="};
    if (k <= 8) return mk_("cmp", {arith(1), arith(1)}, ops[vh::rnd(6)]);
    if (k == 9) return mk_("not", {cond(depth - 1)});
    if (k == 10) return mk_(vh::rnd(2) ? "and" : "or", {cond(depth - 1), cond(depth - 1)});
    if (k == 11) { X l = mk_("list"); l->a.push_back(touch(0)); l->a.push_back(cond(depth - 1)); return l; }
    X a = mk_("str", {}, vh::rnd(2) ? "@" : "1", 0), b = vh::rnd(2) ? mk_("str", {}, vh::rnd(2) ? rstr(ident(n)) : "1", 0) : arith(0); return mk_("cmp", {a, b}, ops[vh::rnd(2)]);
  }
  X blockx(int depth) {
    int k = vh::rnd(depth > 0 ? 7 : 3);
    if (depth > 0 && k == 6) return mk_("rep", {blockx(depth - 1)}, "", vh::rnd(5));
    if (k <= 1 || blocks.empty()) return pn(1 + vh::rnd(4));
    if (k == 2) return mk_("sym", {}, blocks[vh::rnd(blocks.size())]);
    if (k == 3) { X l = mk_("list"); for (int i = 0, t = 2 + vh::rnd(2); i < t; ++i) l->a.push_back(blockx(depth - 1)); return l; }
    if (k == 4) return mk_("rev", {blockx(depth - 1)});
    X m = mk_("merge", {blockx(depth - 1), pn(1 + vh::rnd(2))}); int s = vh::rnd(3); if (s) { m->s = s == 1 ? "<<" : ">>"; m->n = vh::rnd(4) + (s == 2 || vh::rnd(2)); } return m;
  }
  X touch(int depth) {
    int k = vh::rnd(depth > 0 ? 20 : 4);
    if (k <= 1 || (k <= 3 && touches.empty() && blocks.empty())) return blockx(depth > 0 ? 1 : 0);
    if (k <= 3) { const vector<string> &v = touches.empty() || (!blocks.empty() && vh::rnd(2)) ? blocks : touches; return mk_("sym", {}, v[vh::rnd(v.size())]); }
    if (k <= 7) { X l = mk_("list"); for (int i = 0, t = 2 + vh::rnd(3); i < t; ++i) l->a.push_back(touch(depth - 1)); return l; }
    if (k <= 9) return mk_("rep", {touch(depth - 1)}, "", vh::rnd(7));
    if (k == 10) return mk_("mult", {touch(depth - 1)}, "", vh::rnd(5));
    if (k == 11) return mk_("rev", {blockx(depth)});
    if (k == 12) return str();
    if (k == 13) { X e = mk_("echo"); e->s = str()->s; return e; }
    if (k <= 15) { X a = mk_("alt"); int t = 1 + vh::rnd(3); for (int i = 0; i < t; ++i) { a->a.push_back(i && i == t - 1 && vh::rnd(2) ? X() : cond(2)); a->a.push_back(vh::rnd(6) ? touch(depth - 1) : mk_("rep", {touch(0)}, "", 2)); } return a; }
    if (k == 16) { X t = mk_("tr"); t->t = rndperm(n); t->s = "'" + rstr(t->t) + "'"; return t; }
    if (k == 17) { vector<string> v = touches; if (v.empty()) return touch(depth - 1); string s = v[vh::rnd(v.size())]; return mk_("set", {blockx(1)}, s); }
    if (k == 18) { if (ints.empty()) return touch(0); if (vh::rnd(2)) return mk_("imm", {arith(1)}, ints[vh::rnd(ints.size())]); return mk_("inc", {}, ints[vh::rnd(ints.size())], vh::rnd(2) ? 1 : -1); }
    if (vh::rnd(6) == 0) return mk_("endproof");
    // go on until something happens
    X stop = mk_("alt"); stop->a.push_back(vh::rnd(2) ? mk_("isrounds") : cond(1)); stop->a.push_back(vh::rnd(3) ? mk_("break") : mk_("list", {str(), mk_("break")}));
    X l = mk_("list"); l->a.push_back(touch(depth - 1)); l->a.push_back(stop); if (vh::rnd(3) == 0) l->a.push_back(touch(0)); return mk_("rep", {l}, "", vh::rnd(4) ? -1 : 20);
  }
};
static void defaults(Global &g) {
  auto s = [](const char *t) { return mk_("str", {}, t, 0); };
  g.sym["__summary__"] = s("# rows ending in @");
  X sum = mk_("sym", {}, "__summary__");
  g.sym["true"] = mk_("list", {sum, s("Touch is true")}); g.sym["notround"] = mk_("list", {sum, s("Is this OK?")}); g.sym["false"] = mk_("list", {sum, s("Touch is false in $ rows")});
  g.sym["tooshort"] = mk_("list", {sum, s("Touch is too short: \\"), s("at least ${min_length} rows expected")}); g.sym["toolong"] = s("Touch exceeds maximum length of ${max_length} rows$$");
  g.sym["conflict"] = mk_("list", {sum, s("Touch not completed due to false row$$")});
  for (const char *n : {"rounds", "start", "finish", "abort", "everyrow"}) g.sym[n] = mk_("nop");
}
struct Ran { string out; int rc; };
static string spill; // where the children write their standard error
// runs the program in a child process; the script on standard input, in a file or as an argument
static Ran gsiril(const vector<string> &args, const string &in) {
  int a[2], b[2]; if (pipe(a) || pipe(b)) abort(); Ran r; r.rc = -1; fflush(stdout);
  pid_t p = fork();
  if (!p) {
    vh::dead() = true; struct itimerval z = {{0, 0}, {0, 0}}; setitimer(ITIMER_PROF, &z, 0);
    dup2(a[0], 0); dup2(b[1], 1); int e = open("/dev/null", O_WRONLY); dup2(e, 2); close(a[1]); close(b[0]); alarm(10);
    vector<char *> av; for (auto &s : args) av.push_back((char *)s.c_str()); av.push_back(0); unsetenv("TERM");
    int rc = gsiril_main(args.size(), &av[0]); std::cout.flush(); fflush(stdout); _exit(rc);
  }
  close(a[0]); close(b[1]);
  if (in.size() > 60000) abort();
  signal(SIGPIPE, SIG_IGN); if (write(a[1], in.data(), in.size()) < 0) {} close(a[1]);
  char buf[4096]; ssize_t k; while ((k = read(b[0], buf, sizeof buf)) > 0 && r.out.size() < 400000) r.out.append(buf, k); close(b[0]);
  int s; waitpid(p, &s, 0); r.rc = WIFEXITED(s) ? WEXITSTATUS(s) : 1000 + WTERMSIG(s); ++vh::progress(); return r;
}
static int want(Global &g, const vector<Y> &prog) { try { for (auto &y : prog) run(g, y); } catch (Error &) { return 2; } return g.failed; }
// a division before another / on its line is read as a pattern (the language's own ambiguity): such scripts are not used
static bool slashes(string &s) {
  size_t b = 0; while (b <= s.size()) { size_t e = s.find('\n', b); if (e == string::npos) e = s.size(); string l = s.substr(b, e - b); size_t d = std::count(l.begin(), l.end(), '\x01'), o = std::count(l.begin(), l.end(), '/'); if (d && d + o > 1) return false; b = e + 1; }
  std::replace(s.begin(), s.end(), '\x01', '/'); return true;
}
static unsigned long kept, dropped, trues;
// builds the text, runs both and compares
static void compare(Gen &, const vector<Y> &prog, vector<string> args, Global g, const string &provesym = "") {
  int rc; try { rc = want(g, prog); if (rc != 2 && !provesym.empty()) { X e; if (provesym == "__first__") { if (!g.proved && !g.first.empty()) { e = g.sym[g.first]; } } else e = mk_("sym", {}, provesym); if (e) { try { prove(g, e); rc = g.failed; } catch (Error &) { rc = 2; } } } }
  catch (Discard &) { ++dropped; return; }
  catch (std::exception &e) { CHECKM(false, "the interpreter of the check failed: " << e.what()); return; }
  catch (Script &e) { ++dropped; return; }
  string src; for (auto &y : prog) { src += text(y); src += vh::rnd(6) ? "\n" : vh::rnd(3) ? "; " : " // note\n"; }
  if (vh::rnd(6)) src += "\n";
  if (!slashes(src)) { ++dropped; return; }
  int how = vh::rnd(4); string in = src; args.insert(args.begin(), "gsiril");
  if (how == 0) { args.push_back("-e"); args.push_back(src); in = ""; }
  string al; for (size_t i = 1; i < args.size(); ++i) if (args[i] != src) al += args[i] + " ";
  string shown = src; INPUT("gsiril " << al << "<<< " << vh::q(shown));
  Ran r = gsiril(args, in); ++kept; trues += rc == 0;
  CHECKM(r.rc == rc, "exit status " << r.rc << ", expected " << rc << "; output " << vh::q(r.out.substr(0, 300)));
  CHECKM(r.out == g.out, "output " << vh::q(r.out.substr(0, 400)) << ", expected " << vh::q(g.out.substr(0, 400)));
}
static vector<string> options(Global &g, Gen &G, string &ps) {
  vector<string> a; if (vh::rnd(3) == 0) { g.E_ = true; a.push_back(vh::rnd(2) ? "-E" : "--everyrow-only"); }
  int q = vh::rnd(8); if (q == 0) { g.quiet = 1; a.push_back("-q"); } else if (q == 1) { g.quiet = 2; a.push_back("-qq"); }
  if (vh::rnd(5) == 0) { g.extents = 1 + vh::rnd(3); a.push_back("-n" + std::to_string(g.extents)); }
  if (vh::rnd(3) == 0 && G.n >= 3) { setbells(g, G.n); a.push_back("-b" + std::to_string(G.n)); if (vh::rnd(3) == 0) { g.rounds = rndperm(G.n); a.push_back("--rounds=" + rstr(g.rounds)); } }
  if (vh::rnd(6) == 0) { long lo = 1 + vh::rnd(40), hi = lo + vh::rnd(60); g.lo = lo; g.hi = hi; a.push_back("--length=" + std::to_string(lo) + "-" + std::to_string(hi)); g.sym["min_length"] = mk_("num", {}, "", lo); g.sym["max_length"] = mk_("num", {}, "", hi); }
  if (g.E_) g.sym["everyrow"] = mk_("str", {}, "@", 0);
  if (vh::rnd(8) == 0) { ps = "__first__"; a.push_back(vh::rnd(2) ? "-P" : "--prove"); }
  return a;
}
// a random script
static vector<Y> script(Gen &G, Global &g, bool builtins) {
  vector<Y> p; 
  if (g.bells == 0 || vh::rnd(3) == 0) { bool skip = vh::rnd(40) == 0; if (!skip) p.push_back(st("bells", "", X(), G.n)); }
  if (g.bells == 0 && p.empty()) { p.push_back(st("bells", "", X(), G.n)); }
  if (vh::rnd(6) == 0) p.push_back(st("extents", "", X(), 1 + vh::rnd(3)));
  if (vh::rnd(8) == 0) { Y y = st("rounds"); y->t = rndperm(G.n); p.push_back(y); }
  if (vh::rnd(8) == 0) { long lo = 1 + vh::rnd(30); p.push_back(st("rows", "", X(), lo, vh::rnd(2) ? lo : lo + vh::rnd(40))); }
  static const char *const bn[] = {"m", "lead", "Cm", "blk_1"}, *const tn[] = {"p", "b", "s", "course", "part", "H"}, *const in[] = {"i", "count"};
  for (int i = 0, k = vh::rnd(3); i < k; ++i) { p.push_back(st("def", bn[i], G.pn(2 + vh::rnd(5)))); G.blocks.push_back(bn[i]); if (vh::rnd(3) == 0) p.push_back(st("ddef", bn[i], G.pn(2))); }
  for (int i = 0, k = vh::rnd(3); i < k; ++i) { G.div = true; X e = vh::rnd(2) ? G.arith(2) : mk_("num", {}, "", vh::rnd(9)); G.div = false; p.push_back(st(vh::rnd(2) ? "idef" : "def", in[i], e->k == "num" ? e : e)); if (p.back()->k == "def" && e->k != "num") p.back()->k = "idef"; G.ints.push_back(in[i]); if (vh::rnd(3) == 0) p.push_back(st("echo", "", mk_("sym", {}, in[i]))); }
  for (int i = 0, k = 1 + vh::rnd(4); i < k; ++i) { X e = G.touch(2); p.push_back(st("def", tn[i], e)); G.touches.push_back(tn[i]); if (vh::rnd(8) == 0) p.push_back(st("ddef", vh::rnd(2) ? tn[i] : "extra", G.touch(1))); }
  if (builtins) {
    if (vh::rnd(3) == 0) p.push_back(st("def", "start", vh::rnd(2) ? G.str() : mk_("list", {mk_("str", {}, "  @", 0), mk_("str", {}, "------", 0)})));
    if (vh::rnd(3) == 0) p.push_back(st("def", "everyrow", vh::rnd(3) == 0 && !G.ints.empty() ? mk_("inc", {}, G.ints[0], 1) : vh::rnd(3) ? mk_("str", {}, vh::rnd(2) ? "@" : " #:@", 0) : mk_("alt", {G.cond(1), G.str()})));
    if (vh::rnd(3) == 0) p.push_back(st("def", "finish", vh::rnd(2) ? G.str() : G.touch(1)));
    if (vh::rnd(3) == 0) p.push_back(st("def", "conflict", vh::rnd(3) == 0 ? G.str() : mk_("nop")));
    if (vh::rnd(3) == 0) p.push_back(st("def", "rounds", vh::rnd(4) ? G.str() : mk_("break")));
    if (vh::rnd(4) == 0) p.push_back(st("def", "abort", G.str()));
    for (const char *v : {"true", "false", "notround", "tooshort", "toolong"}) if (vh::rnd(6) == 0) p.push_back(st("def", v, vh::rnd(2) ? mk_("str", {}, string(v) + " # $ @", 0) : G.str()));
  }
  int k = 1 + vh::rnd(2);
  for (int i = 0; i < k; ++i) {
    Y y = st("prove", "", G.touch(vh::rnd(2) ? 3 : 2)); int w = vh::rnd(8);
    if (w == 0) { Y f = st("if"); int t = 1 + vh::rnd(2); for (int j = 0; j < t; ++j) { f->c.push_back(G.cond(1)); Y b = st("block"); b->b.push_back(j ? st("prove", "", G.touch(1)) : y); f->b.push_back(b); } if (vh::rnd(2)) { f->c.push_back(X()); Y b = st("block"); b->b.push_back(st("echo", "", mk_("str", {}, "no", 0))); f->b.push_back(b); } p.push_back(f); }
    else if (w == 1) { Y f = st("for", "pp"); for (int j = 0, t = 1 + vh::rnd(3); j < t; ++j) f->c.push_back(G.blockx(0)); Y b = st("block"); y->e = mk_("list", {mk_("sym", {}, "pp"), y->e}); b->b.push_back(y); f->b.push_back(b); p.push_back(f); }
    else p.push_back(y);
    if (vh::rnd(6) == 0) { int b2 = G.n + 1; if (b2 <= 12) { p.push_back(st("bells", "", X(), b2)); G.n = b2; } }
  }
  return p;
}
static void many(int from, int to, bool builtins, int count) {
  for (int t = 0; t < count; ++t) {
    Gen G(from + vh::rnd(to - from + 1)); Global g; defaults(g); string ps; vector<string> a = options(g, G, ps);
    vector<Y> p = script(G, g, builtins); if (!ps.empty() && vh::rnd(2)) { vector<Y> q; for (auto &y : p) if (y->k != "prove") q.push_back(y); p.swap(q); for (auto &y : p) if (y->k == "def") { bool again = false; int c = 0; for (auto &z : p) c += (z->k == "def" || z->k == "ddef" || z->k == "idef") && z->s == y->s; again = c > 1; if (again) y->k = "def"; } }
    compare(G, p, a, g, ps);
  }
  fprintf(stderr, "kept %lu dropped %lu true %lu\n", kept, dropped, trues);
}
SECTION("C25", "random-small") { many(3, 4, false, vh::thorough() ? 6000 : 700); }
SECTION("C25", "random-symbols") { many(3, 5, true, vh::thorough() ? 6000 : 700); }
SECTION("C25", "random-larger") { many(5, 9, true, vh::thorough() ? 6000 : 600); }
// compositions of real methods, with calls
SECTION("C25", "compositions") {
  for (int t = 0; t < (vh::thorough() ? 4000 : 450); ++t) {
    int n = 4 + vh::rnd(5); Gen G(n); Global g; defaults(g); string ps; vector<string> a = options(g, G, ps); ps.clear(); { vector<string> b; for (auto &x : a) if (x != "-P" && x != "--prove") b.push_back(x); a = b; }
    vector<Y> p; p.push_back(st("bells", "", X(), n)); if (vh::rnd(4) == 0) p.push_back(st("extents", "", X(), 1 + vh::rnd(2)));
    // a plain-bob-like or random treble-hunting lead
    vector<P> h; bool bob = vh::rnd(2); P cross(n), nn = ident(n); { vector<int> c; for (int i = 0; i + 1 < n; i += 2) c.push_back(i); cross = invol(c, n); c.clear(); for (int i = 1; i + 1 < n; i += 2) c.push_back(i); nn = invol(c, n); }
    for (int i = 0; i < n; ++i) { if (bob) h.push_back(i % 2 ? nn : cross); else h.push_back(G.chg()); }
    X lead = mk_("pn"); lead->s = "&" + G.many(h); lead->pn = h; for (size_t i = h.size() - 1; i--; ) lead->pn.push_back(h[i]);
    p.push_back(st("def", "m", lead));
    auto call = [&](const char *nm, vector<int> sw, const char *out) { X c = mk_("pn"); c->pn.push_back(invol(sw, n)); c->s = "+" + G.one(c->pn[0]); X l = mk_("list", {mk_("sym", {}, "m"), c}); if (vh::rnd(2)) l->a.push_back(mk_("str", {}, out, 0)); p.push_back(st("def", nm, l)); };
    vector<int> pl, bl, sl; for (int i = 2; i + 1 < n; i += 2) pl.push_back(i); bl.push_back(1); for (int i = 4; i + 1 < n; i += 2) bl.push_back(i); for (int i = 4; i + 1 < n; i += 2) sl.push_back(i);
    call("p", pl, "  @"); call("b", bl, "- @"); call("s", sl, "s @");
    std::function<X(int)> T = [&](int d) -> X { int k = vh::rnd(d > 0 ? 5 : 1); if (k == 0) return mk_("sym", {}, string(1, "ppbbs"[vh::rnd(5)])); if (k <= 2) { X l = mk_("list"); for (int i = 0, c = 2 + vh::rnd(3); i < c; ++i) l->a.push_back(T(d - 1)); return l; } if (k == 3) return mk_("rep", {T(d - 1)}, "", 1 + vh::rnd(4)); if (vh::rnd(2)) { X st_ = mk_("alt", {mk_("isrounds"), mk_("break")}); return mk_("rep", {mk_("list", {T(d - 1), st_})}, "", -1); } X al = mk_("alt"); al->a.push_back(mk_("list", {mk_("sym", {}, "b"), G.pat()})); al->a.push_back(mk_("sym", {}, "b")); al->a.push_back(X()); al->a.push_back(mk_("sym", {}, "p")); return mk_("rep", {al}, "", 1 + vh::rnd(4)); };
    p.push_back(st("def", "part", T(3)));
    p.push_back(st("prove", "", vh::rnd(2) ? mk_("rep", {mk_("sym", {}, "part")}, "", 1 + vh::rnd(6)) : mk_("rep", {mk_("list", {mk_("sym", {}, "part"), mk_("alt", {mk_("isrounds"), mk_("break")})})}, "", -1)));
    compare(G, p, a, g);
  }
  fprintf(stderr, "kept %lu dropped %lu true %lu\n", kept, dropped, trues);
}
// arithmetic as usually understood
SECTION("C25", "arithmetic") {
  for (int t = 0; t < (vh::thorough() ? 3000 : 400); ++t) { Gen G(4); G.div = true; Global g; defaults(g); vector<Y> p; p.push_back(st("bells", "", X(), 4)); for (int i = 0; i < 6; ++i) { X e = G.arith(2); if (!Ctx::isint(e) || e->k == "inc" || e->k == "call") continue; p.push_back(st("echo", "", e)); } compare(G, p, vector<string>(), g); }
}
// an endless script is stopped by the node limit, whatever it is; a terminating one is not if the limit is large
SECTION("C25", "node-limit") {
  for (int lim = 100; lim < 140; ++lim) {
    INPUT("--node-limit=" << lim);
    Ran r = gsiril({"gsiril", "-b6", "--node-limit=" + std::to_string(lim)}, "conflict=\nprove repeat +x\n"); CHECKM(r.rc == 2, "exit status " << r.rc);
    r = gsiril({"gsiril", "-b6", "--node-limit=" + std::to_string(lim + 1000000)}, "prove 2 +x\n"); CHECKM(r.rc == 0, "exit status " << r.rc);
  }
}
// as a filter: exactly the methods for which the script succeeds are passed on
SECTION("C25", "filter") {
  for (int t = 0; t < (vh::thorough() ? 400 : 60); ++t) {
    int n = 4 + vh::rnd(3); Gen G(n); string in; vector<int> ok; int k = 2 + vh::rnd(6); int times = 1 + vh::rnd(6); P xt = G.chg(); string script = "prove " + std::to_string(times) + "(m,lh)"; bool ext = vh::rnd(2); if (ext) script = "prove " + std::to_string(times) + "(m,lh,m,+" + G.one(xt) + ")";
    for (int i = 0; i < k; ++i) {
      vector<P> v; for (int j = 0, l = 2 + vh::rnd(5); j < l; ++j) v.push_back(G.chg()); string s; for (size_t j = 0; j < v.size(); ++j) { string c; for (int x = 0; x < n; ++x) if (v[j][x] == x) c += SYMS[x]; if (c.empty()) c = "-"; s += (s.empty() ? "" : ".") + c; }
      in += s + "\tM" + std::to_string(i) + "\n";
      map<P, int> c; P r = ident(n); bool good = true; auto ring = [&](const P &x) { r = mul(r, x); good &= ++c[r] == 1; };
      for (int q = 0; q < times; ++q) { for (auto &x : v) ring(x); if (ext) { for (size_t j = 0; j + 1 < v.size(); ++j) ring(v[j]); ring(xt); } }
      if (good && r == ident(n)) ok.push_back(i);
    }
    INPUT("gsiril --filter -b" << n << " -e " << script << " <<< " << vh::q(in));
    Ran r = gsiril({"gsiril", "--filter", "-b" + std::to_string(n), "-e", script}, in); CHECKM(r.rc == 0, "exit status " << r.rc);
    vector<int> got; std::istringstream is(r.out); string line; while (getline(is, line)) { size_t m = line.find("\tM"); CHECKM(m != string::npos, vh::q(line)); if (m != string::npos) got.push_back(atoi(line.c_str() + m + 2)); }
    CHECKM(got == ok, "passed on " << vh::q(r.out) << ", expected " << ok.size() << " methods");
  }
}
// reads place notation in which external places may be left out
static bool readpn(const string &s, int n, vector<P> &out) {
  for (size_t i = 0; i < s.size(); ) {
    if (s[i] == '.') { ++i; continue; }
    if (strchr("-xX", s[i])) { vector<int> c; for (int k = 0; k + 1 < n; k += 2) c.push_back(k); out.push_back(invol(c, n)); ++i; continue; }
    vector<int> pl; for (; i < s.size() && !strchr(".-xX", s[i]); ++i) { const char *q = strchr(SYMS, s[i]); if (!q) return false; pl.push_back(q - SYMS); }
    vector<int> c; int at = 0; size_t k = 0; if (pl[0] % 2) at = 1; bool ok = true;
    for (; at < n; ) { if (k < pl.size() && pl[k] == at) { ++k; ++at; } else if (at + 1 < n && !(k < pl.size() && pl[k] == at + 1)) { c.push_back(at); at += 2; } else if (at == n - 1) ++at; else { ok = false; break; } }
    if (!ok || k != pl.size()) return false; out.push_back(invol(c, n));
  }
  return true;
}
// the functions; music is counted once for each row that is rung
SECTION("C25", "functions") {
  static const char *const stages[] = {"Singles", "Minimus", "Doubles", "Minor", "Triples", "Major", "Caters", "Royal", "Cinques", "Maximus"};
  for (int n = 3; n <= 12; ++n) { INPUT("stagename(" << n << ")"); Ran r = gsiril({"gsiril", "-b4", "-e", "echo stagename(" + std::to_string(n) + ")"}, ""); CHECKM(r.rc == 0 && r.out == string(stages[n - 3]) + "\n", "output " << vh::q(r.out)); }
  for (int t = 0; t < (vh::thorough() ? 1200 : 160); ++t) {
    int n = 4 + vh::rnd(6); Gen G(n); string src = std::to_string(n) + " bells\n"; string want; X m = G.pn(3 + vh::rnd(10)); src += "m = " + m->s + "\n";
    struct Item { int kind, len, dir; string pat; }; vector<Item> its; string ml;
    for (int i = 0, k = 1 + vh::rnd(3); i < k; ++i) { Item it; it.kind = vh::rnd(5); it.len = 3 + vh::rnd(n - 3 + 1); if (it.len > n) it.len = n; it.dir = vh::rnd(3) - 1; string s; if (it.kind == 0) { it.pat = G.pat()->s; s = "/" + it.pat + "/"; } else if (it.kind == 4) s = "crus()"; else { s = it.kind == 1 ? "runs" : it.kind == 2 ? "frontruns" : "backruns"; s += "(" + std::to_string(it.len) + (it.dir || vh::rnd(2) ? ", " + (it.dir < 0 ? "0-1" : std::to_string(it.dir)) : "") + ")"; } its.push_back(it); ml += (i ? ", " : "") + s; }
    src += "music " + ml + "\n"; int times = 1 + vh::rnd(5); src += "conflict =\n__summary__ =\ntrue = __music__\nfalse = __music__\nnotround = __music__\nprove " + std::to_string(times) + "m\n";
    LL score = 0; P r = ident(n); bool ok = true; map<P, int> seen;
    for (int q = 0; q < times; ++q) for (auto &c : m->pn) {
      r = mul(r, c); ok &= ++seen[r] == 1;
      for (auto &it : its) {
        auto run = [&](int at, int d) { for (int i = 1; i < it.len; ++i) if (r[at + i] != r[at + i - 1] + d) return false; return true; };
        if (it.kind == 0) score += Ctx::glob(it.pat, 0, rstr(r), 0);
        else if (it.kind == 4) { if (n >= 6) { bool c = true; for (int k = 6; k < n; ++k) c &= r[k] == k; score += c && r[4] >= 3 && r[4] <= 5 && r[5] >= 3 && r[5] <= 5; } }
        else for (int at = 0; at + it.len <= n; ++at) { if (it.kind == 2 && at) continue; if (it.kind == 3 && at + it.len != n) continue; score += (it.dir >= 0 && run(at, 1)) + (it.dir <= 0 && run(at, -1)); }
      }
    }
    if (score > 0) want = "Music score: " + std::to_string(score) + "\n";
    INPUT("gsiril <<< " << vh::q(src)); Ran o = gsiril({"gsiril"}, src); CHECKM(o.rc == !(ok && r == ident(n)), "exit status " << o.rc); CHECKM(o.out == want, "output " << vh::q(o.out) << ", expected " << vh::q(want));
    // pnstr gives place notation for the changes of its arguments
    X m2 = G.pn(1 + vh::rnd(4)); string s2 = std::to_string(n) + " bells\nm = " + m->s + "\necho pnstr(m, " + m2->s + ", ~m)\necho swap(1," + std::to_string(n) + ")"; s2 = std::to_string(n) + " bells\nm = " + m->s + "\necho pnstr(m, " + m2->s + ", ~m)\n";
    INPUT("gsiril <<< " << vh::q(s2)); o = gsiril({"gsiril"}, s2); vector<P> all = m->pn, got; all.insert(all.end(), m2->pn.begin(), m2->pn.end()); for (size_t i = m->pn.size(); i--; ) all.push_back(m->pn[i]);
    bool good = readpn(o.out.substr(0, o.out.find('\n')), n, got); CHECKM(o.rc == 0 && good && got == all, "output " << vh::q(o.out));
    // swap exchanges two bells
    int i = vh::rnd(n), j = vh::rnd(n - 1); if (j >= i) ++j; bool two = vh::rnd(2); if (!two) { i = vh::rnd(n - 1); j = i + 1; } P w = ident(n); for (auto &c : m->pn) w = mul(w, c); std::swap(w[i], w[j]);
    string s3 = std::to_string(n) + " bells\nconflict =\nfalse = \"@\"\nnotround = \"@\"\ntrue = \"@\"\nprove " + m->s + ", swap(" + std::to_string(i + 1) + (two ? ", " + std::to_string(j + 1) : "") + ")\n"; INPUT("gsiril <<< " << vh::q(s3)); o = gsiril({"gsiril"}, s3); CHECKM(o.out == rstr(w) + "\n", "output " << vh::q(o.out) << ", expected " << rstr(w));
  }
}
