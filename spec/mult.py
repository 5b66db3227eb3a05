"""Contracts of ringing/multtab.h, multtab.cpp: precomputed multiplication tables."""
from cppv.terms import *
from cppv.contract import *
from cppv import stl, vals
from cppv.vals import LIM
from .lib import *
from . import core
M = 'ringing::multtab'; HM = 'heap.' + M
VVI = ('Vec', VI)
H = lambda c, w='pre': c.heap(HM, w)
tid = lambda c: c._this.path[0][1]
me = lambda c: vget(H(c), tid(c))
F = recget
GV = lambda g: recget(g, 'v')                    # the elements of a group
# the least of r*P[0] .. r*P[k-1] (in the order of rows) among those in R, or the empty row
prk = declare('prk', (VVI, VVI, VI, 'Int'), VI)
inR = lambda R, x: lt(stl.vfind(R, x, 0), vlen(R))
E0 = vempty('Int')
better = lambda x, y: stl.lexlt(x, y)
def _prk(P, R, r, k):
    x = rprod(r, vget(P, k)); p = prk(P, R, r, k)
    return ite(conj(disj(eq(vlen(p), 0), better(x, p)), inR(R, x)), x, p)
A('prk_0', forall([VVI, VVI, VI], lambda P, R, r: eq(prk(P, R, r, 0), E0), pats=lambda P, R, r: [[prk(P, R, r, 0)]]), ['prk'], 'definition')
A('prk_s', forall([VVI, VVI, VI, 'Int', 'Int'], lambda P, R, r, k, m: imp(conj(le(0, k), eq(m, add(k, 1))), eq(prk(P, R, r, m), _prk(P, R, r, k))), pats=lambda P, R, r, k, m: [[prk(P, R, r, k), prk(P, R, r, m)]]), ['prk'], 'definition')
postrep = lambda P, R, r: ite(lt(vlen(P), 2), r, prk(P, R, r, vlen(P)))
# the least of r and the representatives of G[0]*r .. G[k-1]*r that exist
mrk = declare('mrk', (VVI, VVI, VVI, VI, 'Int'), VI)
def _mrk(G, P, R, r, k):
    x = postrep(P, R, rprod(vget(G, k), r)); p = mrk(G, P, R, r, k)
    return ite(conj(ne(vlen(x), 0), better(x, p)), x, p)
A('mrk_0', forall([VVI, VVI, VVI, VI], lambda G, P, R, r: eq(mrk(G, P, R, r, 0), r), pats=lambda G, P, R, r: [[mrk(G, P, R, r, 0)]]), ['mrk'], 'definition')
A('mrk_s', forall([VVI, VVI, VVI, VI, 'Int', 'Int'], lambda G, P, R, r, k, m: imp(conj(le(0, k), eq(m, add(k, 1))), eq(mrk(G, P, R, r, m), _mrk(G, P, R, r, k))), pats=lambda G, P, R, r, k, m: [[mrk(G, P, R, r, k), mrk(G, P, R, r, m)]]), ['mrk'], 'definition')
G_ = lambda t: GV(F(t, 'pends')); P_ = lambda t: GV(F(t, 'postgroup')); R_ = lambda t: F(t, 'rows')
mrep = lambda t, r: mrk(G_(t), P_(t), R_(t), r, vlen(G_(t)))

def pr_inv(L):
    c = L.c; t = me(c)
    for p in L.mints:
        i = L.int(p)
        yield 'm ' + p.name, mention(prk(P_(t), R_(t), c[0], add(i, 1)))
        for v in L.mvecs:
            if L.vec(v).sort == VI: yield 'least %s %s' % (v[0], p.name), eq(L.vec(v), prk(P_(t), R_(t), c[0], i))
contract('multtab::make_post_representative(const row &) const', heapthis=True, prop='C15', inv=[pr_inv],
    ensures=lambda c: eq(c.result, postrep(P_(me(c)), R_(me(c)), c[0])))
def mr_inv(L):
    c = L.c; t = me(c)
    for p in L.mints:
        i = L.int(p); f = lambda k: mrk(G_(t), P_(t), R_(t), c[0], k)
        yield 'm ' + p.name, mention(f(add(i, 1)))
        for v in L.mvecs:
            if L.vec(v).sort == VI: yield 'least %s %s' % (v[0], p.name), eq(L.vec(v), f(i))
contract('multtab::make_representative(const row &) const', heapthis=True, prop='C15', inv=[mr_inv],
    ensures=lambda c: eq(c.result, mrep(me(c), c[0])))
contract('multtab::bells() const', heapthis=True, prop='C15', ensures=lambda c: eq(c.result, ite(eq(vlen(R_(me(c))), 0), 0, vlen(vget(R_(me(c)), 0)))))
def find_inv(L):
    c = L.c; t = me(c)
    for p in L.mints:
        yield 'notyet ' + p.name, allk(L.int(p), lambda k: ne(vget(R_(t), k), mrep(t, c[0])), lambda k: [vget(R_(t), k)])
contract('multtab::find(const row &) const', heapthis=True, prop='C15', inv=[find_inv],
    requires=lambda c: inR(R_(me(c)), mrep(me(c), c[0])),
    ensures=lambda c: conj(rng(c.result, vlen(R_(me(c)))), eq(vget(R_(me(c)), c.result), mrep(me(c), c[0]))))
contract('multtab::find(const details::multtab_row_t &) const', heapthis=True, prop='C15',
    requires=lambda c: rng(c[0], vlen(R_(me(c)))), ensures=lambda c: eq(c.result, vget(R_(me(c)), c[0])))

# ---- the table ---------------------------------------------------------------------------------
T_ = lambda t: F(t, 'table'); C_ = lambda t: F(t, 'cols')
colrow = lambda x: F(x, 'first'); ispre = lambda x: eq(F(x, 'second'), 0)
cprod = lambda x, r: ite(ispre(x), rprod(colrow(x), r), rprod(r, colrow(x)))
def entry_ok(t, e, x, r, inr=True):
    """e is the index of the representative of the product, if that is in the table"""
    m = mrep(t, cprod(x, r)) if not isinstance(x, tuple) else mrep(t, rprod(x[1], r) if x[0] else rprod(r, x[1]))
    return imp(inR(R_(t), m), conj(rng(e, vlen(R_(t))), eq(vget(R_(t), e), m)))
def shape(t, n=None):
    tb = T_(t)
    return conj(eq(vlen(tb), vlen(R_(t))), allk(vlen(tb), lambda k: eq(vlen(vget(tb, k)), vlen(C_(t))), lambda k: [vget(tb, k)]))
def content(t):
    """every column holds the products with its row"""
    tb = T_(t)
    return forall(2, lambda i, c: imp(conj(rng(i, vlen(R_(t))), rng(c, vlen(C_(t)))), entry_ok(t, vget(vget(tb, i), c), vget(C_(t), c), vget(R_(t), i))), pats=lambda i, c: [[vget(vget(tb, i), c)]])
def wf(t): return [shape(t), content(t)]
# here rows are values: what is in them does not matter
OPAQUE = ('perm_rng', 'perm_len', 'perm_ipos', 'perm_sur', 'perm_intro', 'rprod_get', 'rprod_len', 'rquot_get', 'rinv_get')
def now(L): return vget(L.X.store[L.c._this.root], tid(L.c))
def cm_inv(pre):
    def g(L):
        c = L.c; t = me(c); R = R_(t); out = []
        # the search among the columns: not yet found
        hit = lambda k: conj(eq(F(vget(C_(t), k), 'second'), 0 if pre else 1), eq(colrow(vget(C_(t), k)), c[0]))
        Gq = G_(t) if pre else P_(t)
        maps = [(v, L.vec(v)) for v in L.vecs if v[2] is not None and v[2].strip().tmpl in stl.MAPS]
        u = now(L)
        for p in L.mints:
            i = L.int(p)
            if p.name.startswith('this'): continue
            if p.kind == 'ptr': out.append(('commutes ' + p.name, allk(i, lambda k: eq(rprod(c[0], vget(Gq, k)), rprod(vget(Gq, k), c[0])), lambda k: [vget(Gq, k)])))
            else: out.append(('no such column ' + p.name, allk(i, lambda k: mk_not(hit(k)), lambda k: [vget(C_(t), k)])))
        for v, f in maps:
            lo, hi = stl.tree_fns(v[2])[1:3]
            fst = lambda k: F(vget(f, k), 'first'); snd = lambda k: F(vget(f, k), 'second')
            out.append(('indices', allk(vlen(f), lambda k: imp(inR(R, fst(k)), conj(rng(snd(k), vlen(R)), eq(vget(R, snd(k)), fst(k)))), lambda k: [vget(f, k)])))
            out.append(('all indexed', allk(vlen(R), lambda j: lt(lo(f, vget(R, j)), hi(f, vget(R, j))), lambda j: [vget(R, j)])))
            for p in L.mints:
                i = L.int(p)
                if p.name.startswith('this'): continue
                if L.modified(v[1]): out.append(('indexed ' + p.name, allk(i, lambda j: lt(lo(f, vget(R, j)), hi(f, vget(R, j))), lambda j: [vget(R, j)])))
        for p in L.mints:
            i = L.int(p); tb, t0 = T_(u), T_(t); n = vlen(C_(t))
            if not L.modified(c._this) or p.kind == 'ptr' or p.name.startswith('this'): continue
            h0, h1 = H(c), L.X.store[c._this.root]
            out.append(('others', forall(1, lambda k: imp(ne(k, tid(c)), eq(vget(h1, k), vget(h0, k))), pats=lambda k: [[vget(h1, k)]])))
            out.append(('rows stay', conj(*[eq(F(u, f), F(t, f)) for f, _ in RECS[M] if f != 'table'])))
            out.append(('len', eq(vlen(tb), vlen(t0))))
            out.append(('later rows ' + p.name, forall(1, lambda k: imp(ge(k, i), eq(vget(tb, k), vget(t0, k))), pats=lambda k: [[vget(tb, k)]])))
            out.append(('one more ' + p.name, allk(i, lambda k: eq(vlen(vget(tb, k)), add(n, 1)), lambda k: [vget(tb, k)])))
            out.append(('old columns ' + p.name, forall(2, lambda k, j: imp(conj(rng(k, i), rng(j, n)), eq(vget(vget(tb, k), j), vget(vget(t0, k), j))), pats=lambda k, j: [[vget(vget(tb, k), j)]])))
            out.append(('new column ' + p.name, allk(i, lambda k: entry_ok(t, vget(vget(tb, k), n), (pre, c[0]), vget(R, k)), lambda k: [vget(tb, k)])))
        return out
    return g
def cm(key, pre):
    kind = 0 if pre else 1
    def post(c):
        t, u = me(c), c.this1; r = c.result; n0 = vlen(C_(t)); i = F(r, 'n'); x = vget(C_(u), i)
        found = eq(vlen(C_(u)), n0)
        return [('the column', conj(rng(i, vlen(C_(u))), eq(colrow(x), c[0]), eq(F(x, 'second'), kind), eq(F(r, 't'), tid(c)))),
                ('same rows', conj(eq(R_(u), R_(t)), eq(F(u, 'pends'), F(t, 'pends')), eq(F(u, 'postgroup'), F(t, 'postgroup')))),
                ('old columns stay', conj(disj(found, eq(vlen(C_(u)), add(n0, 1))), allk(n0, lambda k: eq(vget(C_(u), k), vget(C_(t), k)), lambda k: [vget(C_(u), k)]))),
                ('columns are kept once', imp(mk_not(found), allk(n0, lambda k: mk_not(conj(eq(F(vget(C_(t), k), 'second'), kind), eq(colrow(vget(C_(t), k)), c[0]))), lambda k: [vget(C_(t), k)]))),
                ('shape', shape(u)), ('products', content(u))]
    Gq = G_ if pre else P_
    contract(key, heapthis=True, prop='C15', inv=[cm_inv(pre)], nolemmas=OPAQUE, requires=lambda c: wf(me(c)) + [le(vlen(C_(me(c))), LIM)],
        throws=[('std::logic_error', lambda c: exists(1, lambda k: conj(rng(k, vlen(Gq(me(c)))), ne(rprod(c[0], vget(Gq(me(c)), k)), rprod(vget(Gq(me(c)), k), c[0]))), pats=lambda k: [[vget(Gq(me(c)), k)]]))],
        ensures=post)
cm('multtab::compute_pre_mult(const row &)', True)
cm('multtab::compute_post_mult(const row &)', False)
for key, ri, ci, pre in (('details::operator*(details::multtab_row_t, details::multtab_post_col_t)', 0, 1, False), ('details::operator*(details::multtab_pre_col_t, details::multtab_row_t)', 1, 0, True)):
    def mk(key, ri, ci, pre):
        def tt(c): return vget(H(c), F(c[ci], 't'))
        def x(c): return vget(C_(tt(c)), F(c[ci], 'n'))
        def m(c): return mrep(tt(c), cprod(x(c), vget(R_(tt(c)), c[ri])))
        contract(key, prop='C15', requires=lambda c: [ge(F(c[ci], 't'), 1)] + wf(tt(c)) + [rng(c[ri], vlen(R_(tt(c)))), rng(F(c[ci], 'n'), vlen(C_(tt(c)))), eq(F(x(c), 'second'), 0 if pre else 1), inR(R_(tt(c)), m(c))],
            ensures=lambda c: conj(rng(c.result, vlen(R_(tt(c)))), eq(vget(R_(tt(c)), c.result), mrep(tt(c), (rprod(colrow(x(c)), vget(R_(tt(c)), c[0 + ri])) if pre else rprod(vget(R_(tt(c)), c[ri]), colrow(x(c))))))))
    mk(key, ri, ci, pre)

# ---- construction -------------------------------------------------------------------------------
_su = 'su' + stl.ss(VVI[1])
slo = declare('eqlo_' + _su, (VVI, VI), 'Int'); shi = declare('eqhi_' + _su, (VVI, VI), 'Int')
# the ordered set of the representatives (among the rows V) of V[0] .. V[k-1]
mset = declare('mset', (VVI, VVI, VVI, 'Int'), VVI)
def _mset(G, P, V, k):
    m = mset(G, P, V, k); x = mrk(G, P, V, vget(V, k), vlen(G)); p = shi(m, x)
    return ite(lt(slo(m, x), p), m, stl.vcat(vpush(stl.vsub(m, 0, p), x), stl.vsub(m, p, sub(vlen(m), p))))
A('mset_0', forall([VVI, VVI, VVI], lambda G, P, V: eq(mset(G, P, V, 0), vempty(VI)), pats=lambda G, P, V: [[mset(G, P, V, 0)]]), ['mset'], 'definition')
A('mset_s', forall([VVI, VVI, VVI, 'Int', 'Int'], lambda G, P, V, k, m: imp(conj(le(0, k), eq(m, add(k, 1))), eq(mset(G, P, V, m), _mset(G, P, V, k))), pats=lambda G, P, V, k, m: [[mset(G, P, V, k), mset(G, P, V, m)]]), ['mset'], 'definition')
def init_inv(L):
    c = L.c; t = me(c); f = lambda k: mset(G_(t), P_(t), c[0], k)
    for p in L.mints:
        i = L.int(p)
        yield 'm ' + p.name, mention(f(add(i, 1)))
        for v in L.mvecs:
            if L.vec(v).sort == VVI: yield 'representatives %s %s' % (v[0], p.name), eq(L.vec(v), f(i))
def reps(t, V): return mset(G_(t), P_(t), V, vlen(V))
def fresh_ok(t, V):
    return [eq(vlen(T_(t)), 0), eq(vlen(C_(t)), 0), ge(vlen(G_(t)), 1), eq(vlen(reps(t, V)), div(vlen(V), vlen(G_(t))))]
def inited(c, V, G, P, R):
    u = c.this1 if c.this1.sort[0] == 'Rec' else me(c)
    return [('rows', eq(R_(u), R)), ('groups', conj(eq(G_(u), G), eq(P_(u), P))), ('no columns', conj(eq(vlen(C_(u)), 0), shape(u)))]
contract('multtab::init(const std::vector<row> &)', heapthis=True, prop='C15', inv=[init_inv], nolemmas=OPAQUE,
    requires=lambda c: fresh_ok(me(c), c[0]),
    ensures=lambda c: inited(c, c[0], G_(me(c)), P_(me(c)), reps(me(c), c[0])))
contract('multtab::swap(multtab &)', prop='C15', alias=[0], ensures=lambda c: [('this', eq(c.this1, c[0])), ('other', eq(c.post(0), c.this))])
from cppv.contract import seqiters
G1 = vlit(VI, [E0])                            # the group of rounds alone
_IT = '__gnu_cxx::__normal_iterator<const row *, std::vector<row>>'
def sl(c): return stl.vsub(c[0].vec, c[0].i, sub(c[1].i, c[0].i))
span = lambda c: [eq(c[0].vec, c[1].vec), le(0, c[0].i), le(c[0].i, c[1].i), le(c[1].i, vlen(c[1].vec))]
contract('multtab::make_vector<%s>(%s, %s)' % (_IT, _IT, _IT), prop='C15', params=seqiters, requires=span, ensures=lambda c: eq(c.result, sl(c)))
contract('multtab::multtab<%s>(%s, %s)' % (_IT, _IT, _IT), prop='C15', params=seqiters, heapthis=True, requires=span,
    ensures=lambda c: inited(c, None, G1, G1, sl(c)))
contract('multtab::multtab<%s>(%s, %s, const group &, const group &)' % (_IT, _IT, _IT), prop='C15', params=seqiters, heapthis=True,
    requires=lambda c: span(c) + [ge(vlen(GV(c[2])), 1), eq(vlen(mset(GV(c[2]), GV(c[3]), sl(c), vlen(sl(c)))), div(vlen(sl(c)), vlen(GV(c[2]))))],
    ensures=lambda c: inited(c, None, GV(c[2]), GV(c[3]), mset(GV(c[2]), GV(c[3]), sl(c), vlen(sl(c)))))

# ---- square tables ---------------------------------------------------------------------------------
SQ = 'sqmulttab::'
def sq(t): return conj(eq(vlen(C_(t)), vlen(R_(t))), allk(vlen(R_(t)), lambda k: eq(vget(C_(t), k), mkrec(RECS_C, [vget(R_(t), k), num(1)])), lambda k: [vget(C_(t), k)]))
contract(SQ + 'find(const details::sqmulttab_row_t &) const', heapthis=True, prop='C15',
    requires=lambda c: rng(sqi(c[0]), vlen(R_(me(c)))), ensures=lambda c: eq(c.result, vget(R_(me(c)), sqi(c[0]))))
def sqi(x): return F(x, '@ringing::details::multtab_row_t')
contract(SQ + 'find(const row &) const', heapthis=True, prop='C15', requires=lambda c: inR(R_(me(c)), mrep(me(c), c[0])),
    ensures=lambda c: conj(rng(sqi(c.result), vlen(R_(me(c)))), eq(vget(R_(me(c)), sqi(c.result)), mrep(me(c), c[0])), eq(F(c.result, 't'), tid(c))))
D_ = 'details::'
contract(D_ + 'sqmulttab_row_t::operator details::multtab_post_col_t() const', prop='C15', ensures=lambda c: conj(eq(F(c.result, 'n'), sqi(c.this)), eq(F(c.result, 't'), F(c.this, 't'))))
def sqcols(t): return allk(vlen(C_(t)), lambda k: conj(eq(F(vget(C_(t), k), 'second'), 1), eq(colrow(vget(C_(t), k)), vget(R_(t), k))), lambda k: [vget(C_(t), k)])
def sqwf(t): return wf(t) + [eq(vlen(C_(t)), vlen(R_(t))), sqcols(t)]
def _sqt(c): return vget(H(c), F(c[0], 't'))
def _sqm(c): return mrep(_sqt(c), rprod(vget(R_(_sqt(c)), sqi(c[0])), vget(R_(_sqt(c)), sqi(c[1]))))
contract(D_ + 'operator*(details::sqmulttab_row_t, details::sqmulttab_row_t)', prop='C15',
    requires=lambda c: [ge(F(c[0], 't'), 1)] + sqwf(_sqt(c)) + [rng(sqi(c[0]), vlen(R_(_sqt(c)))), rng(sqi(c[1]), vlen(R_(_sqt(c)))), inR(R_(_sqt(c)), _sqm(c))],
    ensures=lambda c: [('product', conj(rng(sqi(c.result), vlen(R_(_sqt(c)))), eq(vget(R_(_sqt(c)), sqi(c.result)), _sqm(c)))), ('table', eq(F(c.result, 't'), F(c[0], 't')))])
distinct = lambda V: forall(2, lambda i, j: imp(conj(rng(i, vlen(V)), rng(j, vlen(V)), ne(i, j)), ne(vget(V, i), vget(V, j))), pats=lambda i, j: [[vget(V, i), vget(V, j)]])
commutes = declare('commutes', (VVI, VVI), 'Bool')   # every row of one list commutes with every row of the other
A('commutes_use', forall([VVI, VVI, 'Int', 'Int'], lambda V, P, i, j: imp(conj(commutes(V, P), rng(i, vlen(V)), rng(j, vlen(P))), eq(rprod(vget(V, i), vget(P, j)), rprod(vget(P, j), vget(V, i)))), pats=lambda V, P, i, j: [[commutes(V, P), vget(V, i), vget(P, j)]]), ['commutes'], 'definition')
A('commutes_1', forall([VVI], lambda V: commutes(V, G1), pats=lambda V: [[commutes(V, G1)]]), ['commutes'])
commuting = lambda t: commutes(R_(t), P_(t))
def sqinit_inv(L):
    c = L.c; t = me(c); u = now(L); h0, h1 = H(c), L.X.store[c._this.root]
    if not L.modified(c._this): return
    yield 'others', forall(1, lambda k: imp(ne(k, tid(c)), eq(vget(h1, k), vget(h0, k))), pats=lambda k: [[vget(h1, k)]])
    yield 'rows stay', conj(*[eq(F(u, f), F(t, f)) for f in ('rows', 'pends', 'postgroup')])
    for p in L.mints:
        if p.name.startswith('this'): continue
        yield 'columns ' + p.name, eq(vlen(C_(u)), L.int(p))
        yield 'upto ' + p.name, conj(le(0, L.int(p)), le(L.int(p), vlen(R_(t))))
    yield 'shape', shape(u); yield 'products', content(u); yield 'cols', sqcols(u)
contract(SQ + 'sqinit()', heapthis=True, prop='C15', variant=[lambda L: [('rows left', sub(vlen(R_(me(L.c))), L.int(p))) for p in L.mints if not p.name.startswith('this')]], inv=[sqinit_inv], nolemmas=OPAQUE, requires=lambda c: [eq(vlen(C_(me(c))), 0), distinct(R_(me(c))), commuting(me(c))] + wf(me(c)),
    ensures=lambda c: [('rows', conj(*[eq(F(c.this1, f), F(me(c), f)) for f in ('rows', 'pends', 'postgroup')])), ('shape', shape(c.this1)), ('products', content(c.this1)), ('columns', conj(eq(vlen(C_(c.this1)), vlen(R_(c.this1))), sqcols(c.this1)))])
contract('sqmulttab::sqmulttab<%s>(%s, %s)' % (_IT, _IT, _IT), prop='C15', nolemmas=OPAQUE, params=seqiters, heapthis=True, requires=lambda c: span(c) + [distinct(sl(c))],
    ensures=lambda c: [('rows', eq(R_(c.this1), sl(c))), ('shape', shape(c.this1)), ('products', content(c.this1)), ('columns', conj(eq(vlen(C_(c.this1)), vlen(sl(c))), sqcols(c.this1)))])
contract('multtab::size() const', heapthis=True, prop='C15', ensures=lambda c: eq(c.result, vlen(T_(me(c)))))
contract('multtab::group_size() const', heapthis=True, prop='C15', ensures=lambda c: eq(c.result, vlen(G_(me(c)))))
contract('multtab::begin_rows() const', heapthis=True, prop='C15', ensures=lambda c: eq(c.result, 0))
contract('multtab::end_rows() const', heapthis=True, prop='C15', requires=lambda c: le(vlen(T_(me(c))), LIM), ensures=lambda c: eq(c.result, vlen(T_(me(c)))))
