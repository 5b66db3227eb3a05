// Bounded checks of the method libraries (C21): files are written in each format
// from known entries, and what is read back is compared with those entries.
#include "ref.h"
#include <ringing/method.h>
#include <ringing/library.h>
#include <ringing/litelib.h>
#include <ringing/cclib.h>
#include <ringing/mslib.h>
#include <ringing/methodset.h>
#include <ringing/peal.h>
#include <fstream>
#include <memory>
#include <list>
#include <sys/stat.h>
using namespace ringing;
using std::vector; using std::string;
typedef vector<vector<int> > Lead; // each change as its left swap positions
static string cstr(const vector<int> &sw, int n) { // all places, x for a full cross
  vector<bool> m(n); for (int s : sw) m[s] = m[s + 1] = true;
  string r; for (int i = 0; i < n; ++i) if (!m[i]) r += SYMS[i];
  return r.empty() ? "x" : r;
}
static string lstr(const Lead &l, int n, const char *cross = "x") {
  string r; bool dot = false;
  for (auto &c : l) { string s = cstr(c, n); if (s == "x") { r += cross; dot = false; } else { if (dot) r += '.'; r += s; dot = true; } }
  return r;
}
static vector<change> chs(const Lead &l, int n) { vector<change> v; for (auto &c : l) v.push_back(mkch(c, n)); return v; }
static Lead mirror(const Lead &l) { Lead r = l; for (size_t i = l.size(); i-- > 1; ) r.push_back(l[i - 1]); return r; }
static bool eq(const method &m, const vector<change> &v) { return m.size() == v.size() && std::equal(v.begin(), v.end(), m.begin()); }
static vector<int> onechange(int n) { vector<int> s; do s = rndchange(n); while (s.empty()); return s; }
static Lead rlead(int n, int len) { Lead l; while ((int)l.size() < len) l.push_back(onechange(n)); return l; }
static const char *WORDS[] = {"Cambridge", "Superlative", "Bourne", "St Clement's", "Kent", "A", "Ye Olde", "New-Town", "King's Norton", "X", "Bobbing", "Placentia", "Minorca", "Supreme"};
static string word() { return WORDS[vh::rnd(14)]; }
struct Dir { string d; int n = 0; Dir() { char t[] = "/tmp/vlibXXXXXX"; d = mkdtemp(t); } vector<string> fs, ds;
  string file(const string &name, const string &txt, const string &sub = "") { string p = d + (sub.empty() ? "" : "/" + sub); if (!sub.empty()) { mkdir(p.c_str(), 0700); ds.push_back(p); } p += "/" + name; std::ofstream(p.c_str(), std::ios::binary) << txt; fs.push_back(p); return p; }
  ~Dir() { for (auto &f : fs) unlink(f.c_str()); for (auto &f : ds) rmdir(f.c_str()); rmdir(d.c_str()); } };
struct E { string name, base, pn; int b; vector<change> m; string payload; };
static string chomp(const string &s, const string &suf, bool &done) {
  done = s.size() >= suf.size() && s.compare(s.size() - suf.size(), suf.size(), suf) == 0; if (!done) return s;
  string r = s.substr(0, s.size() - suf.size()); while (!r.empty() && isspace((unsigned char)r.back())) r.pop_back(); return r;
}
static void compare(const library &l, const vector<E> &want, bool names) {
  size_t i = 0;
  for (library::const_iterator it = l.begin(), end = l.end(); it != end; ++it, ++i) {
    ++vh::progress(); CHECKM(i < want.size(), "more entries than the file has: " << it->pn()); if (i >= want.size()) return;
    const E &w = want[i]; library_entry e(*it);
    if (names) { CHECKM(e.name() == w.name, "entry " << i << " name " << vh::q(e.name()) << " want " << vh::q(w.name)); CHECKM(e.base_name() == w.base, "base name " << vh::q(e.base_name()) << " want " << vh::q(w.base)); }
    CHECKM(e.bells() == w.b, "entry " << i << " bells " << e.bells() << " want " << w.b);
    if (!w.pn.empty()) CHECKM(e.pn() == w.pn, "entry " << i << " pn " << vh::q(e.pn()) << " want " << vh::q(w.pn));
    method m; try { m = e.meth(); } catch (const std::exception &x) { CHECKM(false, "entry " << i << " pn " << vh::q(e.pn()) << " throws " << x.what()); continue; } CHECKM(eq(m, w.m), "entry " << i << " method " << m.format() << " pn " << vh::q(e.pn()));
    CHECK(m.bells() == w.b); if (names) CHECKM(string(m.name()) == w.base, m.name());
  }
  CHECKM(i == want.size(), "only " << i << " entries of " << want.size());
}
// ---------------------------------------------------------------- light weight
static string litename(int b, string &base) {
  string s = vh::rnd(8) ? word() : ""; if (vh::rnd(6) == 0) s += (s.empty() ? "" : " ") + word();
  auto add = [&](const string &t) { if (!s.empty()) s += ' '; s += t; };
  if (vh::rnd(6) == 0) add(method::stagename(b));
  if (vh::rnd(4) == 0) add("Differential"); if (vh::rnd(3) == 0) add("Little");
  static const char *CL[] = {"Bob", "Place", "Treble Bob", "Surprise", "Delight", "Treble Place", "Alliance", "Hybrid", "Slow Course"};
  if (vh::rnd(2)) add(CL[vh::rnd(9)]); if (vh::rnd(3)) add(method::stagename(b));
  bool d; base = chomp(s, method::stagename(b), d); (void)d;
  if (d) {
    static const int CO[] = {method::M_BOB, method::M_PLACE, method::M_TREBLE_BOB, method::M_SURPRISE, method::M_DELIGHT, method::M_TREBLE_PLACE, method::M_ALLIANCE, method::M_HYBRID, method::M_SLOW_COURSE};
    bool cl = false; for (int k = 9; k-- && !cl; ) { string t = method::classname(CO[k]); if (t.empty()) continue; string r = chomp(base, t, cl); if (cl) base = r; }
    bool x; if (cl) base = chomp(base, "Little", x); base = chomp(base, "Differential", x);
  }
  return s;
}
static void lite(int fixed, bool usefile, bool payname) {
  vector<E> want; string txt; if (vh::rnd(3) == 0 && true) txt += "\xEF\xBB\xBF";
  int n = vh::rnd(8); const char *nl = vh::rnd(4) ? "\n" : "\r\n";
  for (int i = 0; i < n; ++i) {
    if (vh::rnd(8) == 0) txt += vh::rnd(2) ? string(nl) : string("  ") + nl;
    int b = fixed && vh::rnd(4) ? fixed : 3 + vh::rnd(10), len = 1 + vh::rnd(5); bool prefix = fixed ? b != fixed || vh::rnd(2) : vh::rnd(5);
    Lead l = rlead(b, len); E e; e.b = b; bool sym = vh::rnd(2);
    if (sym) { vector<int> le = onechange(b); e.pn = "&" + lstr(l, b) + "," + cstr(le, b); l = mirror(l); l.push_back(le); } else e.pn = lstr(l, b, vh::rnd(2) ? "x" : "-");
    e.m = chs(l, b); e.payload = litename(b, e.base); e.name = payname ? e.payload : ""; if (!payname) e.base = "";
    static const char *W[] = {" ", "\t", "  ", "\t \t"};
    txt += vh::rnd(5) ? "" : "  "; if (prefix) txt += std::to_string(b) + ":"; txt += e.pn; if (!e.payload.empty()) txt += W[vh::rnd(4)] + e.payload;
    if (vh::rnd(5) == 0) txt += "  "; if (i + 1 < n || vh::rnd(2)) txt += nl;
    bool in = fixed ? b == fixed : prefix; if (in) want.push_back(e);
  }
  INPUT((usefile ? "litelib file " : "litelib stream ") << vh::q(txt) << " bells " << fixed << (payname ? " payload_is_name" : ""));
  int fl = payname ? litelib::payload_is_name : 0; Dir d; std::istringstream is(txt); string f = usefile ? d.file("lib", txt) : "";
  litelib *lp = usefile ? new litelib(fixed, f, fl) : new litelib(fixed, is, fl); std::unique_ptr<litelib> own(lp); litelib &l = *lp;
  compare(l, want, true);
  if (usefile) { // a file can be read again
    size_t i = 0; for (library::const_iterator it = l.begin(); it != l.end(); ++it, ++i) { if (i >= want.size()) break; CHECK(it->has_facet<litelib::payload>()); string p = it->get_facet<litelib::payload>(); CHECKM(p == want[i].payload, vh::q(p)); }
    CHECK(i == want.size());
    size_t k = 0; for (library::const_iterator it = l.begin(), prev; it != l.end(); ++k) { library::const_iterator old = it++; if (k < want.size()) CHECK(old->pn() == want[k].pn); }
    CHECK(k == want.size()); CHECK(l.empty() == want.empty());
  }
}
SECTION("C21", "lightweight libraries in files") { int N = vh::thorough() ? 6000 : 1200; for (int i = 0; i < N; ++i) lite(vh::rnd(2) ? 3 + vh::rnd(10) : 0, true, vh::rnd(2)); }
SECTION("C21", "lightweight libraries on streams") { int N = vh::thorough() ? 6000 : 1200; for (int i = 0; i < N; ++i) lite(vh::rnd(2) ? 3 + vh::rnd(10) : 0, false, vh::rnd(2)); }
SECTION("C21", "round trip through method::format") {
  for (int i = 0, N = vh::thorough() ? 8000 : 2000; i < N; ++i) {
    int n = 1 + vh::rnd(5), fl = (vh::rnd(2) ? method::M_SYMMETRY : 0) | (vh::rnd(2) ? method::M_DASH : 0) | (vh::rnd(2) ? method::M_EXTERNAL : 0) | (vh::rnd(2) ? method::M_LCROSS : 0); string txt; vector<E> want;
    for (int k = 0; k < n; ++k) { int b = 3 + vh::rnd(12); Lead l = rlead(b, 1 + vh::rnd(6)); if (vh::rnd(2)) { l = mirror(l); l.push_back(onechange(b)); } E e; e.b = b; e.m = chs(l, b); method m(e.m); txt += std::to_string(b) + ":" + m.format(fl) + "\t" + word() + "\n"; want.push_back(e); }
    INPUT("library " << vh::q(txt)); std::istringstream is(txt); litelib l(0, is); compare(l, want, false);
  }
}
// ---------------------------------------------------------------- MicroSiril
static string msfile(vector<E> &want, bool &headed) {
  string txt; int b = 0, n = vh::rnd(7); const char *nl = vh::rnd(4) ? "\n" : "\r\n"; headed = true;
  static const char *H[] = {"* S", "*Surprise S", "*x ", "* TD", "*abc def "};
  auto head = [&] { b = 4 + vh::rnd(9); int k = vh::rnd(5); string h = H[k]; if (k == 4) h = "*abc "; txt += h + std::to_string(b) + nl; };
  head();
  for (int i = 0; i < n; ++i) {
    if (vh::rnd(4) == 0) head(); if (vh::rnd(9) == 0) txt += nl[0] == '\n' ? "\n" : "";
    E e; e.b = b; string w; do w = word(); while (w.find(' ') != string::npos); e.name = e.base = w; Lead l = rlead(b, 1 + vh::rnd(5)); string lh, pn; vector<int> le;
    auto mk = [&](const string &ends) { P p = ident(b); vector<int> s; string r = ends; vector<bool> place(b); for (char c : ends) place[strchr(SYMS, c) - SYMS] = true;
      for (int j = 0; j < b; ) { if (place[j]) { ++j; continue; } if (j + 1 < b && !place[j + 1]) { s.push_back(j); j += 2; } else ++j; } return s; };
    switch (vh::rnd(4)) {
      case 0: pn = "+" + lstr(l, b, vh::rnd(2) ? "x" : "-"); lh = vh::rnd(2) ? "a" : "z"; break;
      case 1: lh = string(1, "abcdefpq"[vh::rnd(8)]); le = mk(b % 2 ? "2" : "2"); le = mk("2"); { vector<int> s; for (int j = 2; j + 1 < b; j += 2) s.push_back(j); le = s; } goto sym;
      case 2: lh = string(1, "ghjklmrs"[vh::rnd(8)]); if (vh::rnd(3) == 0) lh += "1"; { vector<int> s; for (int j = 1; j + 1 < b; j += 2) s.push_back(j); le = s; } goto sym;
      case 3: le = onechange(b); lh = cstr(le, b) + "z"; goto sym;
      sym: pn = "&" + lstr(l, b, vh::rnd(2) ? "x" : "-"); l = mirror(l); l.push_back(le);
    }
    e.m = chs(l, b); want.push_back(e); txt += w + " " + lh + " " + pn; if (vh::rnd(6) == 0) txt += "\t"; if (i + 1 < n || vh::rnd(2)) txt += nl;
  }
  return txt;
}
SECTION("C21", "MicroSiril libraries") {
  mslib::registerlib();
  for (int i = 0, N = vh::thorough() ? 5000 : 1200; i < N; ++i) {
    vector<E> want; bool h; string txt = msfile(want, h); Dir d; string f = d.file("lib8.txt", txt); INPUT("MicroSiril file " << vh::q(txt));
    { mslib l(f); CHECK(l.good()); compare(l, want, true); compare(l, want, true); CHECK(l.empty() == want.empty()); }
    { library l(f); CHECK(l.good() == !want.empty()); if (l.good()) compare(l, want, true); }
  }
  { INPUT("missing file"); mslib l("/nonexistent/x"); CHECK(!l.good()); library m("/nonexistent/x"); CHECK(!m.good()); CHECK(m.begin() == m.end()); library e(""); CHECK(!e.good()); }
}
// ---------------------------------------------------------------- Central Council
struct CE : E { int ref; bool tp, hp, rw, cc; peal t, h; string rws, ccs; };
static string pad(string s, size_t w) { while (s.size() < w) s += ' '; return s; }
static string ccfile(vector<CE> &want) {
  const char *nl = vh::rnd(4) ? "\n" : "\r\n"; string txt = string("Copyright 2001 nobody") + nl + nl; int sections = 1 + vh::rnd(4);
  for (int s = 0; s < sections; ++s) {
    int b = 3 + vh::rnd(9), kind = vh::rnd(4); string stage = method::stagename(b); // 0 methods 1 principles 2 differentials 3 blocks
    static const struct { const char *t; int cl; } CL[] = {{"Surprise ", method::M_SURPRISE}, {"Delight ", method::M_DELIGHT}, {"Treble Bob ", method::M_TREBLE_BOB}, {"Treble Place ", method::M_TREBLE_PLACE}, {"Alliance ", method::M_ALLIANCE}, {"Hybrid ", method::M_HYBRID}, {"Plain ", 0}, {"", 0}};
    int c = kind == 0 ? vh::rnd(8) : 7; bool little = kind == 0 && vh::rnd(3) == 0, diff = kind == 2, plain = c >= 6, block = kind == 3;
    string title = string(little ? "Little " : "") + CL[c].t + stage + (kind == 0 ? " methods" : kind == 1 ? " principles" : kind == 2 ? " differentials" : " blocks");
    txt += title + nl + nl;
    bool sym = vh::rnd(3), irr = !sym && vh::rnd(2); bool tb = vh::rnd(2), hb = vh::rnd(2), rw = vh::rnd(2), cc = vh::rnd(2);
    const int W = 26; string head = pad("No.", 5) + pad("Name", W) + pad("Notation", 44);
    size_t ns = 5, pn0 = ns + W, hl0 = pn0 + 44, le0, lh0;
    if (sym) { head += pad("hl", 14) + pad("le", 14) + pad("lh", 13); le0 = hl0 + 14; lh0 = le0 + 14; } else if (!irr) { head += pad("hl", 14) + pad("lh", 13); le0 = 0; lh0 = hl0 + 14; } else { head += pad("lh", 13); le0 = 0; lh0 = hl0; }
    if (tb) head += pad("Tower bells", 12) + pad("Place", 16); if (hb) head += pad("Handbells", 12); if (rw) head += pad("RW ref", 10); if (cc) head += pad("CCC", 8);
    while (head.back() == ' ') head.pop_back(); txt += head + nl;
    for (int i = 0, n = 1 + vh::rnd(4); i < n; ++i) {
      CE e; e.b = b; e.ref = 1 + vh::rnd(3000); bool wrap = false; string nm = word(), full; if (vh::rnd(5) == 0) nm += " " + word();
      string cls; if (plain && kind == 0 && vh::rnd(2)) cls = vh::rnd(2) ? "Bob" : vh::rnd(2) ? "Place" : "Slow Course"; string base = nm;
      if (kind == 0 && little) nm += " Little"; if (!cls.empty()) nm += " " + cls;
      if (vh::rnd(10) == 0) { nm = string("A very long name which wraps") + (kind == 0 && little ? " Little" : "") + (cls.empty() ? "" : " " + cls); base = "A very long name which wraps"; wrap = true; }
      else if (nm.size() > W - 2) { nm = base = word(); if (kind == 0 && little) nm += " Little"; }
      full = nm; if (diff) full += " Differential"; string cn = CL[c].cl ? method::classname(CL[c].cl) : ""; if (!cn.empty()) full += " " + cn; if (block) full += " Block";
      e.name = full; e.base = base;
      Lead l = rlead(b, 1 + vh::rnd(4)); string row;
      row = pad(std::to_string(e.ref), 5); if (vh::rnd(2)) row = string(5 - std::to_string(e.ref).size() - 1, ' ') + std::to_string(e.ref) + " ";
      if (wrap) { row += nm; while (row.size() < pn0 + 3) row += "s", e.name.insert(nm.size(), "s"), e.base += "s", nm += "s"; if (!cls.empty() || (kind == 0 && little)) { wrap = false; row = row.substr(0, 5) + pad("Wrapless", W); e.name = "Wrapless" + string(cn.empty() ? "" : " " + cn); e.base = "Wrapless"; } else { txt += row + nl; row = string(pn0, ' '); } } else row += pad(nm, W);
      if (sym) { // changes, half lead change, lead end
        vector<int> hl = onechange(b), le = onechange(b); string a = lstr(l, b, vh::rnd(2) ? "x" : "-"); if (a.size() > 26) { l = rlead(b, 1); a = lstr(l, b); }
        if (a.size() && isalnum(a.back()) && a.back() != 'x' && cstr(hl, b) != "x") a += ".";
        row += pad(a, 44) + pad(cstr(hl, b), 14) + pad(cstr(le, b), 14); l.push_back(hl); l = mirror(l); l.push_back(le);
      } else if (!irr) { // a single change before the symmetric part
        vector<int> f = onechange(b); string a = cstr(f, b), r = lstr(l, b); if (r.size() > 20) { l = rlead(b, 1); r = lstr(l, b); } if (a != "x" && isalnum(r[0]) && r[0] != 'x') a += "."; a += r;
        vector<int> hl = onechange(b); if (isalnum(a.back()) && a.back() != 'x' && cstr(hl, b) != "x") a += "."; row += pad(a, 44) + pad(cstr(hl, b), 14); l.push_back(hl); Lead m = mirror(l); m.insert(m.begin(), f); l = m;
      } else { string a = lstr(l, b); if (a.size() > 26) { l = rlead(b, 1); a = lstr(l, b); } row += pad(a, 44); }
      e.m = chs(l, b); row += pad(rstr(ident(b)), 13); e.tp = e.hp = e.rw = e.cc = false;
      auto date = [&](peal::date &dt) { dt = peal::date(1 + vh::rnd(28), 1 + vh::rnd(12), 1900 + vh::rnd(100)); return std::to_string(dt.day) + "." + std::to_string(dt.month) + "." + std::to_string(dt.year); };
      if (tb) { if (vh::rnd(3)) { peal::date dt; string ds = date(dt), pl = vh::rnd(3) ? word() : ""; row += pad(ds, 12) + pad(pl, 16); e.tp = true; e.t = peal(dt, pl); } else row += string(28, ' '); }
      if (hb) { if (vh::rnd(3)) { peal::date dt; row += pad(date(dt), 12); e.hp = true; e.h = peal(dt, ""); } else row += string(12, ' '); }
      if (rw) { if (vh::rnd(3)) { e.rws = std::to_string(vh::rnd(100)) + "/" + std::to_string(vh::rnd(999)); e.rw = true; row += pad(e.rws, 10); } else row += string(10, ' '); }
      if (cc) { if (vh::rnd(3)) { e.ccs = std::to_string(vh::rnd(999)) + (vh::rnd(2) ? "a" : ""); e.cc = true; row += pad(vh::rnd(2) ? e.ccs : " " + e.ccs, 8); } else row += string(8, ' '); }
      if (vh::rnd(2)) while (row.size() > lh0 + 2 && row.back() == ' ') row.pop_back();
      txt += row; e.pn.clear(); if (s + 1 < sections || i + 1 < n || vh::rnd(2)) txt += nl; if (wrap) e.ref = -1; want.push_back(e);
    }
    if (s + 1 < sections) txt += nl;
  }
  return txt;
}
static void cc(const library &l, const vector<CE> &want) {
  vector<E> w(want.begin(), want.end()); compare(l, w, true); size_t i = 0;
  for (library::const_iterator it = l.begin(); it != l.end() && i < want.size(); ++it, ++i) {
    const CE &e = want[i]; CHECK(it->has_facet<cclib::ref>()); if (e.ref >= 0) { int r = it->get_facet<cclib::ref>(); CHECKM(r == e.ref, r); }
    CHECKM(it->has_facet<first_tower_peal>() == e.tp, "entry " << i); if (e.tp) { peal p = it->get_facet<first_tower_peal>(); CHECKM(p.when().day == e.t.when().day && p.when().month == e.t.when().month && p.when().year == e.t.when().year && p.where() == e.t.where(), "entry " << i << " " << p.where()); }
    CHECKM(it->has_facet<first_hand_peal>() == e.hp, "entry " << i); if (e.hp) { peal p = it->get_facet<first_hand_peal>(); CHECK(p.when().day == e.h.when().day && p.when().month == e.h.when().month && p.when().year == e.h.when().year && p.where().empty()); }
    CHECKM(it->has_facet<rw_ref>() == e.rw, "entry " << i); if (e.rw) { string s = it->get_facet<rw_ref>(); CHECKM(s == e.rws, s); }
    CHECKM(it->has_facet<cc_collection_id>() == e.cc, "entry " << i); if (e.cc) { string s = it->get_facet<cc_collection_id>(); CHECKM(s == e.ccs, s); }
    string fn = it->fullname(); CHECKM(fn == it->meth().fullname(), fn);
  }
}
SECTION("C21", "Central Council libraries") {
  cclib::registerlib(); mslib::registerlib();
  for (int i = 0, N = vh::thorough() ? 4000 : 1000; i < N; ++i) {
    vector<CE> want; string txt = ccfile(want); Dir d; string f = d.file("cc.txt", txt); INPUT("Central Council file " << vh::q(txt));
    { cclib l(f); CHECK(l.good()); cc(l, want); } { library l(f); CHECK(l.good()); cc(l, want); }
  }
}
// ---------------------------------------------------------------- looking up, method sets, several outputs
static string lower(string s) { for (auto &c : s) c = tolower(c); return s; }
SECTION("C21", "looking up methods") {
  mslib::registerlib();
  for (int i = 0, N = vh::thorough() ? 3000 : 600; i < N; ++i) {
    vector<E> want; bool h; string txt = msfile(want, h); Dir d; string f = d.file("m.txt", txt, "sub"); INPUT("MicroSiril file " << vh::q(txt)); if (want.empty()) continue;
    library l(f);
    for (size_t k = 0; k < want.size(); ++k) {
      string nm = want[k].name; if (vh::rnd(2)) nm = lower(nm); int stage = vh::rnd(2) ? want[k].b : 0; size_t j = 0; while (lower(want[j].name) != lower(nm) || (stage && want[j].b != stage)) ++j;
      method m = l.load(nm, stage); CHECKM(eq(m, want[j].m) && m.bells() == want[j].b && m.name() == want[j].base, "load " << nm << " " << stage << " gave " << m.format());
      library_entry e = l.find(method(want[k].m)); CHECK(!e.null()); if (!e.null()) { size_t q = 0; while (!(want[q].m == want[k].m)) ++q; CHECK(e.name() == want[q].name && eq(e.meth(), want[k].m)); }
      library_entry t = l.find(method(want[k].m, want[k].base).fullname()); CHECK(!t.null()); if (!t.null()) { CHECK(t.bells() == want[k].b); CHECK(t.fullname() == method(want[k].m, want[k].base).fullname()); }
    }
    THROWS(library_base::invalid_name, l.load("No Such Method")); int st = want[0].b; string nm = want[0].name; bool any = false; for (auto &e : want) any |= e.name == nm && e.b == st + 20; if (!any) THROWS(library_base::invalid_name, l.load(nm, st + 20));
    CHECK(l.find(string("No Such Method")).null()); { Lead q = rlead(3, 17); CHECK(l.find(method(chs(q, 3))).null()); }
    { std::list<string> r; r.push_back("first"); CHECK(l.dir(r) == (int)want.size()); size_t k = 0; auto it = r.begin(); CHECK(*it == "first"); for (++it; it != r.end() && k < want.size(); ++it, ++k) CHECK(*it == want[k].name); std::list<method> ms; CHECK(l.mdir(ms) == (int)want.size()); k = 0; for (auto &m : ms) { CHECK(eq(m, want[k].m)); ++k; } }
    // the search path
    static const char *const PRE[] = {"", "/nonexistent:", ":/nonexistent:", "/nonexistent::"}; string path = string(PRE[vh::rnd(4)]) + d.d + "/sub" + (vh::rnd(2) ? ":/nonexistent" : "");
    { INPUT("path " << path); library::setpath(path); library p("m.txt"); CHECK(p.good()); if (p.good()) compare(p, want, true); library z("absent.txt"); CHECK(!z.good()); library::setpath(""); library y("m.txt"); CHECK(!y.good()); setenv("METHOD_LIBRARY_PATH", path.c_str(), 1); library::setpath_from_env(); library x("m.txt"); CHECK(x.good()); library::setpath(""); }
  }
}
struct less_ch { bool operator()(const vector<change> &a, const vector<change> &b) const { return a < b; } };
SECTION("C21", "method sets") {
  mslib::registerlib();
  for (int i = 0, N = vh::thorough() ? 6000 : 1500; i < N; ++i) {
    int n = vh::rnd(9); vector<E> in; string txt;
    for (int k = 0; k < n; ++k) { E e; if (k && vh::rnd(3) == 0) e = in[vh::rnd(k)]; else { e.b = 3 + vh::rnd(5); e.m = chs(rlead(e.b, 1 + vh::rnd(3)), e.b); } e.name = word(); in.push_back(e); method m(e.m); txt += std::to_string(e.b) + ":" + m.format() + " " + e.name + "\n"; }
    INPUT("lines " << vh::q(txt)); std::istringstream is(txt); litelib src(0, is, litelib::payload_is_name); methodset s; bool keep = vh::rnd(2); if (keep) s.store_facet<litelib::payload>();
    bool direct = vh::rnd(3) == 0; if (direct) for (auto &e : in) s.append(method(e.m, e.name)); else CHECK(s.append(src.begin(), src.end()) == in.size());
    vector<E> u; for (auto &e : in) { bool dup = false; for (auto &x : u) dup |= x.m == e.m; if (!dup) u.push_back(e); }
    CHECKM(s.size() == u.size(), s.size()); CHECK(s.good()); vector<bool> seen(u.size()); size_t cnt = 0;
    for (methodset::const_iterator it = s.begin(); it != s.end(); ++it, ++cnt) {
      ++vh::progress(); method m = it->meth(); size_t k = 0; while (k < u.size() && !eq(m, u[k].m)) ++k; CHECKM(k < u.size() && !seen[k], m.format()); if (k >= u.size()) continue; seen[k] = true;
      CHECKM(it->name() == u[k].name && m.name() == u[k].name, it->name()); CHECK(it->bells() == u[k].b); CHECKM(eq(method(it->pn(), it->bells()), u[k].m), it->pn());
      CHECK(it->has_facet<litelib::payload>() == (keep && !direct)); if (keep && !direct) { string p = it->get_facet<litelib::payload>(); CHECKM(p == u[k].name, p); }
    }
    CHECK(cnt == u.size());
    for (auto &e : u) { library_entry f = s.library::find(method(e.m)); CHECK(!f.null()); if (!f.null()) { CHECK(eq(f.meth(), e.m)); CHECK(f.name() == e.name); if (keep && !direct) { string p = f.get_facet<litelib::payload>(); CHECK(p == e.name); } f.set_facet<cc_collection_id>("42"); string q = s.library::find(method(e.m)).get_facet<cc_collection_id>(); CHECK(q == "42"); } }
    { Lead q = rlead(9, 5); CHECK(s.library::find(method(chs(q, 9))).null()); }
    // several outputs each get every entry
    { multilibout mo; CHECK(mo.empty()); methodset *a = new methodset, *b = new methodset; mo.add(a); mo.add(b); CHECK(!mo.empty()); for (methodset::const_iterator it = s.begin(); it != s.end(); ++it) mo.append(*it); mo.flush(); CHECK(a->size() == u.size() && b->size() == u.size()); }
    s.clear(); CHECK(s.size() == 0); CHECK(s.begin() == s.end());
  }
}
