// C13-C15: extents, groups, multiplication tables
#include "ref.h"
#include <ringing/extent.h>
#include <ringing/group.h>
#include <ringing/multtab.h>
#include <ringing/mathutils.h>
using namespace ringing; using std::string; using std::vector; using std::set;
static unsigned long fact(int n) { unsigned long f = 1; while (n > 1) f *= n--; return f; }
static int par(const P &p) { int s = 1; vector<bool> d(p.size()); for (size_t i = 0; i < p.size(); ++i) if (!d[i]) { int l = 0; for (int j = i; !d[j]; j = p[j]) d[j] = true, ++l; if (l % 2 == 0) s = -s; } return s; }
static vector<P> refext(int nw, int nh, int nt) { vector<P> v; for (auto &q : allperms(nw)) { P p = ident(nt); for (int i = 0; i < nw; ++i) p[nh + i] = q[i] + nh; v.push_back(p); } return v; }
SECTION("C13", "extents in full") {
  for (int nw = 0; nw <= 7; ++nw) for (int nh = 0; nh <= 3; ++nh) for (int nc = 0; nc <= 3; ++nc) {
    if (nw > 6 && nh + nc > 2) continue;
    const int nt = nw + nh + nc; INPUT("nw=" << nw << " nh=" << nh << " nt=" << nt);
    vector<P> R = refext(nw, nh, nt);
    ringing::extent ex(nw, nh, nt); CHECK(ex.size() == R.size());
    size_t k = 0; extent_iterator i(nw, nh, nt), e; const extent_iterator en = extent_iterator::end(nw, nh, nt);
    for (; i != e && k < R.size(); ++i, ++k) { CHECK(of(*i) == R[k]); CHECK(i->bells() == nt); CHECK(!i.is_end()); CHECK(i != en); if (k) CHECK(*i != row(nt)); }
    CHECK(i == e); CHECK(k == R.size()); CHECK(i.is_end()); CHECK(i == en); CHECK(ex.end() == i); CHECK(of(*ex.begin()) == R[0]);
    if (nc == 0) { extent_iterator j(nw, nh); size_t c = 0; for (; j != e && c <= R.size(); j++, ++c) if (c < R.size()) CHECK(of(*j) == R[c]); CHECK(c == R.size()); ringing::extent e2(nw, nh); CHECK(e2.size() == R.size()); CHECK(of(e2[R.size() - 1]) == R.back()); CHECK(of(nth_row_of_extent(R.size() / 2, nw, nh)) == R[R.size() / 2]); CHECK(position_in_extent(mk(R[R.size() / 2]), nw, nh) == R.size() / 2); if (!nh) CHECK(position_in_extent(mk(R.back())) == R.size() - 1); }
    // backwards from the end
    extent_iterator b = en; for (size_t q = R.size(); q--; ) { --b; CHECK(of(*b) == R[q]); CHECK(!b.is_end()); CHECK(b != en); extent_iterator c = b; CHECK(c++ == b); CHECK(c.is_end() == (q + 1 == R.size())); if (q + 1 < R.size()) { CHECK(of(*c) == R[q + 1]); CHECK(b < c); CHECK(!(c < b)); CHECK(c >= b); } CHECK(b < en); CHECK(!(en < b)); CHECK(en >= b); CHECK(c-- > b); CHECK(c == b); }
    CHECK(b == extent_iterator(nw, nh, nt));
    // numbering
    size_t step = R.size() > 800 ? 7 : 1;
    for (size_t q = 0; q < R.size(); q += step) {
      INPUT("index " << q);
      CHECK(of(nth_row_of_extent(q, nw, nh, nt)) == R[q]); CHECK(of(ex[q]) == R[q]); CHECK(ex[mk(R[q])] == q); CHECK(position_in_extent(mk(R[q]), nw, nh, nt) == q);
      CHECK(sign_of_nth_row_of_extent(q) == par(R[q]));
      int lb = nt; while (lb > 0 && R[q][lb - 1] == lb - 1) --lb; // the row without its trailing bells at home
      CHECK(position_in_extent(mk(P(R[q].begin(), R[q].begin() + lb)), nw, nh, nt) == q);
    }
    // in course
    vector<P> E; for (auto &p : R) if (par(p) > 0) E.push_back(p);
    incourse_extent_iterator c(nw, nh, nt), ce; k = 0;
    for (; c != ce && k < E.size(); ++c, ++k) { CHECK(of(*c) == E[k]); CHECK(of(nth_row_of_incourse_extent(k, nw, nh, nt)) == E[k]); CHECK(position_in_incourse_extent(mk(E[k]), nw, nh, nt) == k); }
    CHECK(c == ce); CHECK(k == E.size());
    if (!nc) { incourse_extent_iterator d(nw, nh); k = 0; for (; d != ce && k < E.size(); d++, ++k) CHECK(of(*d) == E[k]); CHECK(d == ce && k == E.size()); CHECK(of(nth_row_of_incourse_extent(E.size() - 1, nw, nh)) == E.back()); CHECK(position_in_incourse_extent(mk(E.back()), nw, nh) == E.size() - 1); if (!nh) CHECK(position_in_incourse_extent(mk(E.back())) == E.size() - 1); }
  }
}
SECTION("C13", "large extents: numbering") {
  for (int t = 0; t < (vh::thorough() ? 20000 : 4000); ++t) {
    int nw = t % 21, nh = vh::rnd(4), nt = nw + nh + vh::rnd(4); INPUT("nw=" << nw << " nh=" << nh << " nt=" << nt);
    P q = rndperm(nw), p = ident(nt); for (int i = 0; i < nw; ++i) p[nh + i] = q[i] + nh;
    unsigned long x = 0; for (int i = 0; i < nw; ++i) { x *= nw - i; for (int j = i + 1; j < nw; ++j) x += q[j] < q[i]; }
    if (t % 40 < 21 && t < 200) { x = fact(nw) - 1; for (int i = 0; i < nw; ++i) p[nh + i] = nh + nw - 1 - i; }
    INPUT("row " << ps(p) << " index " << x);
    CHECK(position_in_extent(mk(p), nw, nh, nt) == x); CHECK(of(nth_row_of_extent(x, nw, nh, nt)) == p); CHECK(sign_of_nth_row_of_extent(x) == par(p));
    CHECK(ringing::extent(nw, nh, nt).size() == fact(nw));
    ringing::extent ex(nw, nh, nt); CHECK(ex[mk(p)] == x); CHECK(of(ex[x]) == p);
    if (nw > 1) { unsigned long y = x / 2; P z = of(nth_row_of_incourse_extent(y, nw, nh, nt)); CHECK(isperm(z)); CHECK(par(z) > 0); CHECK(position_in_incourse_extent(mk(z), nw, nh, nt) == y); }
  }
  for (int nw : {22, 30, 60}) { INPUT("nw=" << nw); P p = ident(nw); std::swap(p[nw - 1], p[nw - 3]); CHECK(of(nth_row_of_extent(5, nw, 0, nw)) == p); }
}
SECTION("C13", "rows outside the extent") {
  for (int t = 0; t < 6000; ++t) {
    int nw = vh::rnd(5), nh = vh::rnd(3), nt = nw + nh + vh::rnd(3), n = vh::rnd(10); P p = rndperm(n); if (t % 3 == 0) { p = ident(n); if (n > 1) { int i = vh::rnd(n - 1); std::swap(p[i], p[i + 1]); } }
    INPUT("nw=" << nw << " nh=" << nh << " nt=" << nt << " row " << ps(p));
    bool ok = n <= nt; for (int i = 0; ok && i < nt; ++i) if ((i < nh || i >= nh + nw) && at(p, i) != i) ok = false;
    if (!ok) { THROWS(std::out_of_range, position_in_extent(mk(p), nw, nh, nt)); }
    else { unsigned long x = 0; for (int i = 0; i < nw; ++i) { x *= nw - i; for (int j = i + 1; j < nw; ++j) x += at(p, nh + j) < at(p, nh + i); } CHECK(position_in_extent(mk(p), nw, nh, nt) == x); CHECK(ringing::extent(nw, nh, nt)[mk(p)] == x); }
  }
}
SECTION("C13", "random rows") {
  for (int nw = 0; nw <= 5; ++nw) for (int nh = 0; nh <= 2; ++nh) for (int nc = 0; nc <= 2; ++nc) {
    const int nt = nw + nh + nc; INPUT("nw=" << nw << " nh=" << nh << " nt=" << nt); set<P> s, R; for (auto &p : refext(nw, nh, nt)) R.insert(p);
    for (unsigned i = 0; i < fact(nw) * 40 + 5; ++i) { P p = of(nc ? random_row(nw, nh, nt) : random_row(nw, nh)); CHECK(R.count(p)); s.insert(p); }
    CHECK(s == R);
  }
  for (int nw : {13, 20, 35, 60}) { INPUT("nw=" << nw); vector<int> moved(nw + 3); for (int i = 0; i < 200; ++i) { P p = of(random_row(nw, 1, nw + 3)); CHECK(isperm(p)); CHECK(p.size() == (size_t)nw + 3); CHECK(p[0] == 0 && p[nw + 1] == nw + 1 && p[nw + 2] == nw + 2); for (int j = 0; j < nw + 3; ++j) moved[j] += p[j] != j; } for (int j = 1; j <= nw; ++j) CHECK(moved[j] > 0); }
}
SECTION("C13", "all changes") {
  for (int nw = 0; nw <= 10; ++nw) for (int nh = 0; nh <= 2; ++nh) for (int nc = 0; nc <= 2; ++nc) {
    const int nt = nw + nh + nc; INPUT("nw=" << nw << " nh=" << nh << " nt=" << nt); set<P> R, S; for (auto &c : allchanges(nw)) { P p = ident(nt); for (int s : c) std::swap(p[nh + s], p[nh + s + 1]); R.insert(p); }
    size_t k = 0; changes_iterator i(nw, nh, nt), e; for (; i != e && k <= R.size() + 2; ++i, ++k) { CHECK(i->bells() == nt); S.insert(chp(*i, nt)); changes_iterator j = i; CHECK(j == i); CHECK(*j++ == *i); }
    if (nw > 0) { CHECKM(S == R || (R.erase(ident(nt)), S == R), "got " << S.size() << " changes, " << k << " steps"); CHECK(k == S.size()); }
  }
}
// ---------------------------------------------------------------- groups
typedef set<P> G;
static G closure(const vector<P> &gens, int n) { vector<P> g2; for (auto &g : gens) g2.push_back(mul(ident(n), g)); G s; s.insert(ident(n)); vector<P> st(1, ident(n)); while (!st.empty()) { P p = st.back(); st.pop_back(); for (auto &g : g2) { P q = mul(p, g); if (s.insert(q).second) st.push_back(q); } } return s; }
static G of(const group &g) { G s; for (auto &r : g) s.insert(of(r)); return s; }
static string gs(const vector<P> &v) { string s; for (auto &p : v) s += ps(p) + " "; return s; }
static void isgroup(const group &g, const G &R, int n) {
  CHECK((int)g.bells() == n); CHECK(g.size() == R.size()); CHECK(of(g) == R); CHECK((size_t)std::distance(g.begin(), g.end()) == g.size());
  vector<int> fx; for (int i = 0; i < n; ++i) { bool f = true; for (auto &p : R) if (p[i] != i) f = false; if (f) fx.push_back(i); }
  vector<bell> in = g.invariants(); CHECK(vector<int>(in.begin(), in.end()) == fx);
  for (auto &r : g) CHECK(r.bells() == n);
}
static void cosets(const group &g, const G &R, int n, const vector<P> &rs) {
  for (auto &r : rs) {
    INPUT("row " << ps(r)); const int m = std::max(n, (int)r.size());
    P best; P lbest; for (auto &x : R) { P q = mul(x, r), l = mul(r, x); if (best.empty() || q < best) best = q; if (lbest.empty() || l < lbest) lbest = l; }
    P rl = of(g.rcoset_label(mk(r))), ll = of(g.lcoset_label(mk(r)));
    if (R.size() == 1) rl = mul(ident(m), rl);
    CHECKM(rl == best, ps(rl) << " expected " << ps(best)); CHECKM(ll == lbest, ps(ll) << " expected " << ps(lbest));
  }
}
static void groupcase(const vector<P> &gens, int n) {
  INPUT("generators " << gs(gens)); G R = closure(gens, n); vector<row> gr; for (auto &p : gens) gr.push_back(mk(p));
  group g(gr); isgroup(g, R, n);
  if (gens.size() == 1) isgroup(group(gr[0]), R, n);
  if (gens.size() == 2) { isgroup(group(gr[0], gr[1]), R, n); isgroup(group(gr[1], gr[0]), R, n); CHECK(group(gr[0], gr[1]) == g); }
  { vector<row> again(gr); again.insert(again.end(), gr.begin(), gr.end()); std::reverse(again.begin(), again.end()); group h(again); CHECK(h == g); CHECK(!(h != g)); CHECK(!(h < g)); CHECK(h <= g); }
  vector<P> rs; for (int i = 0; i < 6; ++i) rs.push_back(rndperm(n)); for (int d : {1, 3}) { rs.push_back(rndperm(n + d)); if (n > d) rs.push_back(rndperm(n - d)); } if (n > 0) cosets(g, R, n, rs);
  for (int i = 0; i < 4; ++i) {
    P c = rndperm(i == 3 ? n + 2 : i == 2 && n > 1 ? n - 1 : n); INPUT("conjugate by " << ps(c)); G C; for (auto &x : R) C.insert(mul(mul(inv(c), x), c)); const int m = std::max(n, (int)c.size());
    group k = g.conjugate(mk(c)); isgroup(k, C, m); vector<P> r2; for (int j = 0; j < 3; ++j) r2.push_back(rndperm(m)); if (m) cosets(k, C, m, r2);
    vector<P> gv(C.begin(), C.end()); vector<row> rv; for (auto &x : gv) rv.push_back(mk(x)); CHECK(group(rv) == k);
  }
  G E; for (auto &x : R) if (par(x) > 0) E.insert(x); isgroup(g.even_subgroup(), E, n);
  group a(g), b; swap(a, b); isgroup(b, R, n); CHECK(a.size() == 1 && a.bells() == 0); a = b; CHECK(a == b);
}
SECTION("C14", "generated groups, all pairs") {
  for (int n = 1; n <= 4; ++n) { auto v = allperms(n); for (auto &a : v) { groupcase({a}, n); for (auto &b : v) groupcase({a, b}, n); } }
}
SECTION("C14", "generated groups, random") {
  for (int t = 0; t < (vh::thorough() ? 3000 : 350); ++t) {
    int n = 1 + vh::rnd(t % 9 ? 6 : 7); vector<P> gens; int k = 1 + vh::rnd(3); int mx = 0;
    for (int i = 0; i < k; ++i) { P p = ident(n); int m = vh::rnd(4); if (m == 0) p = rndperm(n); else if (m == 1) p = invol(rndchange(n), n); else { int a = vh::rnd(n), b = vh::rnd(n); std::swap(p[a], p[b]); if (m == 3) { a = vh::rnd(n), b = vh::rnd(n); std::swap(p[a], p[b]); } } if (vh::rnd(5) == 0 && n > 1) p = rndperm(1 + vh::rnd(n - 1)); mx = std::max(mx, (int)p.size()); gens.push_back(p); }
    groupcase(gens, mx);
  }
}
SECTION("C14", "products of symmetric groups") { // where coset labels are computed orbit by orbit
  for (int t = 0; t < (vh::thorough() ? 2000 : 300); ++t) {
    int n = 3 + vh::rnd(5); P shuf = rndperm(n); vector<P> gens; int at0 = 0;
    while (at0 < n) { int l = 1 + vh::rnd(std::min(4, n - at0)); for (int i = 0; i + 1 < l; ++i) { P p = ident(n); std::swap(p[shuf[at0 + i]], p[shuf[at0 + i + 1]]); gens.push_back(p); } at0 += l; }
    if (gens.empty()) gens.push_back(ident(n)); groupcase(gens, n);
  }
}
SECTION("C14", "named groups") {
  for (int nw = 0; nw <= 6; ++nw) for (int nh = 0; nh <= 2; ++nh) for (int nc = 0; nc <= 2; ++nc) {
    const int nt = nw + nh + nc, at_ = nc ? nt : 0; INPUT("nw=" << nw << " nh=" << nh << " nt=" << at_); if (nt == 0) continue;
    G S, Ev; for (auto &p : refext(nw, nh, nt)) { S.insert(p); if (par(p) > 0) Ev.insert(p); }
    isgroup(group::symmetric_group(nw, nh, at_), S, nt); isgroup(group::symmetric(nw, nh, at_), S, nt); isgroup(group::alternating_group(nw, nh, at_), Ev, nt); isgroup(group::alternating(nw, nh, at_), Ev, nt);
    vector<P> rs; for (int i = 0; i < 5; ++i) rs.push_back(rndperm(nt)); cosets(group::symmetric_group(nw, nh, at_), S, nt, rs); cosets(group::alternating_group(nw, nh, at_), Ev, nt, rs);
    if (nw < 1) continue;
    P c = ident(nt), rv = ident(nt), rr = ident(nt); for (int i = 1; i + 1 < nw; i += 2) std::swap(rr[nh + i], rr[nh + i + 1]); for (int i = 0; i < nw; ++i) { c[nh + i] = nh + (i + 1) % nw; rv[nh + i] = nh + nw - 1 - i; }
    P pb = of(row::pblh(nh + nw, nh)); pb = mul(ident(nt), pb);
    { P q = pb; int k = 1; while (q != ident(nt)) { q = mul(q, pb); ++k; } CHECK(k == std::max(1, nw)); }
    isgroup(group::cyclic_c(nw, nh, at_), closure({c}, nt), nt); isgroup(group::cyclic_r(nw, nh, at_), closure({pb}, nt), nt);
    isgroup(group::dihedral_c(nw, nh, at_), closure({c, rv}, nt), nt); isgroup(group::dihedral_r(nw, nh, at_), closure({pb, rr}, nt), nt);
    if (nw > 2) { CHECK(group::dihedral_c(nw, nh, at_).size() == 2u * nw); CHECK(group::dihedral_r(nw, nh, at_).size() == 2u * nw); } CHECK(group::cyclic_c(nw, nh, at_).size() == (unsigned)nw);
    isgroup(group::trivial(nt), closure({}, nt), nt);
  }
  { group g; CHECK(g.size() == 1); CHECK(g.bells() == 0); CHECK(*g.begin() == row()); vector<row> none; CHECK(group(none) == g); CHECK(g.invariants().empty()); CHECK(g.rcoset_label(row("2143")) == row("2143")); CHECK(g.lcoset_label(row("2143")) == row("2143")); }
}
SECTION("C14", "direct products and comparison") {
  auto rg = [](vector<P> &gens, int n) { gens.clear(); int k = 1 + vh::rnd(2); for (int i = 0; i < k; ++i) gens.push_back(vh::rnd(2) ? rndperm(n) : invol(rndchange(n), n)); };
  for (int t = 0; t < 400; ++t) {
    int n = 1 + vh::rnd(4), m = 1 + vh::rnd(4); vector<P> a, b; rg(a, n); rg(b, m); INPUT("generators " << gs(a) << "and " << gs(b));
    vector<row> ar, br; for (auto &x : a) ar.push_back(mk(x)); for (auto &x : b) br.push_back(mk(x)); group ga(ar), gb(br); G A = closure(a, n), B = closure(b, m), D;
    for (auto &x : A) for (auto &y : B) { P p = x; for (int i : y) p.push_back(i + n); D.insert(p); }
    group d = group::direct_product(ga, gb); isgroup(d, D, n + m); vector<P> rs; for (int i = 0; i < 3; ++i) rs.push_back(rndperm(n + m)); cosets(d, D, n + m, rs);
    vector<P> va(A.begin(), A.end()), vb(B.begin(), B.end()); int c = n != m ? (n < m ? -1 : 1) : va < vb ? -1 : va > vb;
    CHECK((ga == gb) == (c == 0)); CHECK((ga != gb) == (c != 0)); CHECK((ga < gb) == (c < 0)); CHECK((ga > gb) == (c > 0)); CHECK((ga <= gb) == (c <= 0)); CHECK((ga >= gb) == (c >= 0));
  }
}
// ---------------------------------------------------------------- multiplication tables
static void tabcase(const vector<P> &rows, const G &pends, int n, const group &pg, int ctor) {
  vector<row> rs; for (auto &p : rows) rs.push_back(mk(p));
  auto rep = [&](const P &r) { P b = r; for (auto &x : pends) { P q = mul(x, r); if (q < b) b = q; } return b; };
  multtab t = ctor == 0 ? multtab(rs.begin(), rs.end()) : ctor == 1 ? multtab(rs.begin(), rs.end(), *pg.begin() == row(n) && pg.size() == 1 ? row(n) : *(pg.begin() + 1)) : ctor == 2 ? multtab(rs.begin(), rs.end(), pg) : multtab(rs.begin(), rs.end(), pg, group(row(n)));
  set<P> reps; for (auto &p : rows) reps.insert(rep(p));
  CHECK(t.size() == reps.size()); CHECK(t.bells() == n); CHECK(t.group_size() == pends.size()); CHECK((size_t)std::distance(t.begin_rows(), t.end_rows()) == t.size());
  std::map<P, size_t> idx; size_t k = 0;
  for (multtab::row_iterator i = t.begin_rows(); i != t.end_rows(); ++i, ++k) { P p = of(t.find(*i)); CHECK(reps.count(p)); CHECK(!idx.count(p)); CHECK(i->index() == k); idx[p] = k; CHECK(t.find(mk(p)) == *i); CHECK(multtab::row_t::from_index(k) == *i); if (p == ident(n) && ctor) CHECK(i->isrounds()); if (ctor) CHECK(i->isrounds() == (p == ident(n))); }
  for (auto &p : rows) { INPUT("row " << ps(p)); CHECK(t.find(mk(p)).index() == idx[rep(p)]); CHECK(of(t.find(t.find(mk(p)))) == rep(p)); }
  // a random history of precomputed products
  vector<std::pair<P, multtab::post_col_t> > post; vector<std::pair<P, multtab::pre_col_t> > pre;
  multtab::post_col_t nul; CHECK(nul.null());
  for (int j = 0; j < 6; ++j) {
    P x = rows[vh::rnd(rows.size())]; INPUT("multiplier " << ps(x));
    bool com = true; for (auto &g : pends) if (mul(g, x) != mul(x, g)) com = false;
    if (vh::rnd(3)) { multtab::post_col_t c = t.compute_post_mult(mk(x)); CHECK(!c.null()); for (auto &o : post) CHECK((o.second == c) == (o.first == x)); post.push_back({x, c}); }
    else if (com) { multtab::pre_col_t c = t.compute_pre_mult(mk(x)); CHECK(!c.null()); for (auto &o : pre) CHECK((o.second == c) == (o.first == x)); pre.push_back({x, c}); }
    else THROWS(std::logic_error, t.compute_pre_mult(mk(x)));
    for (auto &c : post) for (auto &p : rows) { INPUT("product " << ps(p) << " * " << ps(c.first)); CHECK((t.find(mk(p)) * c.second).index() == idx[rep(mul(p, c.first))]); }
    for (auto &c : pre) for (auto &p : rows) { INPUT("product " << ps(c.first) << " * " << ps(p)); CHECK((c.second * t.find(mk(p))).index() == idx[rep(mul(c.first, p))]); }
  }
  multtab u(t), w(rs.begin(), rs.begin() + 1); w = t; w.swap(u); CHECK(u.size() == t.size()); multtab::post_col_t c = w.compute_post_mult(mk(rows[0])); for (auto &p : rows) CHECK((w.find(mk(p)) * c).index() == idx[rep(mul(p, rows[0]))]);
}
static const vector<vector<P> > &subgroupgens(int n) { static std::map<int, vector<vector<P> > > m; auto &v = m[n]; if (v.empty()) { set<G> seen; for (auto &a : allperms(n)) for (auto &b : allperms(n)) { G g = closure({a, b}, n); if (seen.insert(g).second) v.push_back({a, b}); } } return v; }
SECTION("C15", "all groups of rows and part ends to 4 bells") {
  for (int n = 1; n <= 4; ++n) for (auto &rg : subgroupgens(n)) {
    G R = closure(rg, n); vector<P> rows(R.begin(), R.end());
    for (auto &pg : subgroupgens(n)) {
      G H = closure(pg, n); if (!std::includes(R.begin(), R.end(), H.begin(), H.end())) continue; INPUT("rows generated by " << gs(rg) << "part ends by " << gs(pg));
      vector<row> gr; for (auto &p : pg) gr.push_back(mk(p)); group g(gr); vector<P> sh(rows); std::shuffle(sh.begin(), sh.end(), vh::rng());
      tabcase(rows, H, n, g, 2); tabcase(sh, H, n, g, 3);
      if (H.size() == 1) { G one; one.insert(P()); tabcase(sh, one, n, g, 0); tabcase(rows, H, n, g, 1); }
      else { P x = of(*(g.begin() + 1)); if (closure({x}, n).size() == H.size()) tabcase(rows, H, n, g, 1); }
    }
  }
}
SECTION("C15", "rows on 5 and 6 bells") {
  for (int t = 0; t < (vh::thorough() ? 60 : 12); ++t) {
    int n = 5 + t % 2; vector<P> rg{rndperm(n), invol(rndchange(n), n)}; G R = closure(rg, n); vector<P> rows(R.begin(), R.end()); if (rows.size() > 400) { rows.clear(); G q = closure({rg[0]}, n); R = q; rows.assign(q.begin(), q.end()); }
    P x = rows[vh::rnd(rows.size())]; G H = closure({x}, n); INPUT("rows generated by " << gs(rg) << "part end " << ps(x)); vector<row> gr{mk(x)}; tabcase(rows, H, n, group(gr), 2);
  }
}
SECTION("C15", "part ends outside the rows") { // cosets one member of which is listed
  for (int n = 3; n <= 5; ++n) for (int t = 0; t < 40; ++t) {
    // rows: all those with the treble home; multipliers are changes and rows
    vector<P> rows; for (auto &p : allperms(n)) if (p[0] == 0) rows.push_back(p); G H; H.insert(ident(n)); INPUT("rows with the treble home on " << n); tabcase(rows, H, n, group(row(n)), 2); break;
  }
  for (int n = 2; n <= 5; ++n) { vector<row> rs; for (auto &p : allperms(n)) rs.push_back(mk(p)); multtab t(rs.begin(), rs.end()); for (auto &c : allchanges(n)) { INPUT("change " << ps(c)); auto col = t.compute_post_mult(mkch(c, n)); for (auto &p : allperms(n)) CHECK(of(t.find(t.find(mk(p)) * col)) == mul(p, invol(c, n))); } }
}
SECTION("C15", "square tables") {
  for (int n = 1; n <= 4; ++n) for (auto &rg : subgroupgens(n)) {
    G R = closure(rg, n); vector<P> rows(R.begin(), R.end()); vector<row> rs; for (auto &p : rows) rs.push_back(mk(p)); INPUT("rows generated by " << gs(rg));
    sqmulttab t(rs.begin(), rs.end());
    for (auto &a : rows) for (auto &b : rows) { sqmulttab::row_t x = t.find(mk(a)), y = t.compute_post_mult(mk(b)); CHECK(of(t.find(x * y)) == mul(a, b)); CHECK(of(t.find(t.compute_pre_mult(mk(b)) * x)) == mul(b, a)); CHECK(of(t.find(t.find(mk(a)))) == a); CHECK((x == y) == (a == b)); }
  }
}
