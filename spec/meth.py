"""Contracts for methods (C10)."""
from cppv.terms import *
from cppv.contract import contract, INV, CONTRACTS as C_
from .lib import *
from . import core
from .core import n_of, swaps_of, INTMAX, isleast, pbrow, nhome
from cppv.vals import sort_of
CH = ('Rec', 'ringing::change')
VC = ('Vec', CH)
BASE = '@std::vector<ringing::change>'
chs = lambda m: recget(m, BASE)
mb = lambda m: recget(m, 'b')
INV['method'] = lambda m: [le(0, mb(m)), le(mb(m), 255)]
chn = lambda v, i: n_of(vget(v, i)); chsw = lambda v, i: swaps_of(vget(v, i))
# the row after i changes, starting from rounds on b bells
mlh = declare('mlh', (VC, 'Int', 'Int'), VI)
@late
def mlh_axioms():
    A('mlh_0', forall([VC, 'Int'], lambda v, b: eq(mlh(v, b, 0), rounds(b)), pats=lambda v, b: [[mlh(v, b, 0)]]), ['mlh'])
    A('mlh_s', forall([VC, 'Int', 'Int', 'Int'], lambda v, b, i, j: imp(conj(le(0, i), eq(j, add(i, 1))), eq(mlh(v, b, j), rapp(mlh(v, b, i), chn(v, i), chsw(v, i)))), pats=lambda v, b, i, j: [[mlh(v, b, i), mlh(v, b, j)]]), ['mlh'])
    A('mlh_len', forall([VC, 'Int', 'Int'], lambda v, b, i: imp(conj(le(0, b), le(0, i)), ge(vlen(mlh(v, b, i)), b)), pats=lambda v, b, i: [[mlh(v, b, i)]]), ['mlh'])
V_ = lambda c: chs(c.this)
N_ = lambda c: vlen(chs(c.this))
LH = lambda c: mlh(V_(c), mb(c.this), N_(c))
contract('method::bells() const', prop='C10', ensures=lambda c: eq(c.result, mb(c.this)))
contract('method::length() const', prop='C10', ensures=lambda c: eq(c.result, N_(c)))
def lh_inv(L):
    c = L.c
    for p in L.mints:
        i = L.int(p)
        for v_ in L.mvecs:
            yield 'fold %s %s' % (v_[0], p.name), eq(L.vec(v_), mlh(V_(c), mb(c.this), i))
        yield 'm %s' % p.name, mention(mlh(V_(c), mb(c.this), add(i, 1)))
contract('method::lh() const', prop='C10', ensures=lambda c: eq(c.result, LH(c)), inv=[lh_inv])
contract('method::leads() const', prop='C10', requires=lambda c: le(rorder(LH(c)), INTMAX), ensures=lambda c: eq(c.result, rorder(LH(c))))
# ---- regular, hunt bells ---------------------------------------------------------------------
def regular(r):
    pw = lambda i: eq(r, rpow(pbrow(vlen(r), nhome(r)), i))
    return ite(eq(vlen(r), 0), TRUE, ite(eq(nhome(r), 0), FALSE,
        exists(1, lambda i: conj(le(1, i), lt(i, sub(vlen(r), nhome(r))), pw(i)), pats=lambda i: [[rpow(pbrow(vlen(r), nhome(r)), i)]])))
contract('method::isregular() const', prop='C10', requires=lambda c: le(vlen(LH(c)), 255), ensures=lambda c: eq(c.result, regular(LH(c))))
# the number of bells below k at home
nfix = declare('nfix', (VI, 'Int'), 'Int')
A('nfix_0', forall([VI], lambda v: eq(nfix(v, 0), 0), pats=lambda v: [[nfix(v, 0)]]), ['nfix'])
A('nfix_s', forall([VI, 'Int', 'Int'], lambda v, k, m: imp(conj(le(0, k), eq(m, add(k, 1))), eq(nfix(v, m), add(nfix(v, k), ite(eq(vget(v, k), k), 1, 0)))), pats=lambda v, k, m: [[nfix(v, k), nfix(v, m)]]), ['nfix'])
A('nfix_rng', forall([VI, 'Int'], lambda v, k: imp(le(0, k), conj(le(0, nfix(v, k)), le(nfix(v, k), k))), pats=lambda v, k: [[nfix(v, k)]]), ['nfix'])
def hb_inv(L):
    c = L.c
    for p in L.mints:
        i = L.int(p)
        yield 'm %s' % p.name, mention(nfix(LH(c), add(i, 1)))
        for q in L.mints:
            if p is not q: yield 'count %s %s' % (q.name, p.name), eq(L.int(q), nfix(LH(c), i))
contract('method::huntbells() const', prop='C10', ensures=lambda c: eq(c.result, nfix(LH(c), mb(c.this))), inv=[hb_inv])
# ---- palindromic symmetry ---------------------------------------------------------------------
at = lambda v, i: vget(v, emod(i, vlen(v)))
half = lambda n: ite(eq(mod(n, 2), 0), div(n, 2), add(div(n, 2), 1))
# palp(v,i): changes equally far either side of change i (cyclically) agree
palp = declare('palp', (VC, 'Int'), 'Bool'); palw = declare('palw', (VC, 'Int'), 'Int')
def palat(v, i, j): return eq(at(v, add(i, j)), at(v, sub(i, j)))
@late
def palp_ax():
    A('palp_elim', forall([VC, 'Int', 'Int', 'Int'], lambda v, i, k, m: imp(conj(palp(v, i), eq(add(k, m), scale(2, i)), le(1, sub(k, i)), lt(sub(k, i), half(vlen(v)))), eq(at(v, k), at(v, m))), pats=lambda v, i, k, m: [[palp(v, i), emod(k, vlen(v)), emod(m, vlen(v))]]), ['palp'])
    A('palp_intro', forall([VC, 'Int'], lambda v, i: disj(palp(v, i), conj(le(1, palw(v, i)), lt(palw(v, i), half(vlen(v))), mk_not(palat(v, i, palw(v, i))))), pats=lambda v, i: [[palp(v, i)]]), ['palp'])
idxok = lambda c, k: disj(conj(eq(N_(c), 0)), rng(c[k], N_(c)))
def pal_inv(L):
    c = L.c; v = V_(c)
    if not len(c.pre_args): return
    for p in L.mints:
        j = L.int(p)
        yield 'm %s' % p.name, mention(emod(sub(c[0], j), vlen(v))); yield 'm2 %s' % p.name, mention(emod(add(sub(c[0], j), vlen(v)), vlen(v)))
        yield 'wrap %s' % p.name, imp(le(j, vlen(v)), eq(emod(sub(c[0], j), vlen(v)), emod(add(sub(c[0], j), vlen(v)), vlen(v))))
        yield 'm3 %s' % p.name, mention(palp(v, c[0]))
        yield 'sofar %s' % p.name, imp(mk_not(palp(v, c[0])), le(j, palw(v, c[0])))
contract('method::is_palindromic_about(int) const', prop='C10', requires=lambda c: idxok(c, 0), ensures=lambda c: eq(c.result, palp(V_(c), c[0])), inv=[pal_inv])
contract('method::issym() const', prop='C10', ensures=lambda c: eq(c.result, conj(eq(mod(N_(c), 2), 0), palp(V_(c), sub(div(N_(c), 2), 1)))))
def symp(r, v, P, pat):
    n = vlen(v)
    least = lambda r: conj(rng(r, div(n, 2)), P(r), allk(r, lambda i: mk_not(P(i)), pat))
    return ite(eq(mod(n, 2), 1), eq(r, -1), disj(conj(eq(r, -1), allk(div(n, 2), lambda i: mk_not(P(i)), pat)), least(r)))
def sp_inv(L):
    for p in L.mints: yield 'none %s' % p.name, allk(L.int(p), lambda i: mk_not(palp(V_(L.c), i)), lambda i: [palp(V_(L.c), i)]); yield 'm %s' % p.name, mention(palp(V_(L.c), L.int(p)))
contract('method::symmetry_point() const', prop='C10', ensures=lambda c: symp(c.result, V_(c), lambda i: palp(V_(c), i), lambda i: [palp(V_(c), i)]), inv=[sp_inv])
anypal = lambda c: conj(eq(mod(N_(c), 2), 0), exists(1, lambda i: conj(rng(i, div(N_(c), 2)), palp(V_(c), i)), pats=lambda i: [[palp(V_(c), i)]]))
contract('method::ispalindromic() const', prop='C10', ensures=lambda c: eq(c.result, anypal(c)))
# ---- doubleness ---------------------------------------------------------------------------------
from .core import rvs
def isrev(a, b): return conj(eq(n_of(a), n_of(b)), eq(swaps_of(a), rvs(swaps_of(b), n_of(b))))
def dbl_inv(L):
    v = V_(L.c)
    for p in L.mints: yield 'sofar %s' % p.name, allk(L.int(p), lambda i: isrev(vget(v, i), vget(v, add(div(vlen(v), 2), i))), lambda i: [vget(v, i)])
contract('method::isdouble() const', prop='C10', inv=[dbl_inv],
    ensures=lambda c: eq(c.result, conj(eq(mod(N_(c), 2), 0), allk(div(N_(c), 2), lambda i: isrev(vget(V_(c), i), vget(V_(c), add(div(N_(c), 2), i))), lambda i: [vget(V_(c), i)]))))
# ---- the path of a bell ---------------------------------------------------------------------------
mpath = declare('mpath', (VC, 'Int', 'Int'), 'Int')      # the place after i changes (going round and round) of the bell in place b at first
@late
def mpath_ax():
    A('mpath_0', forall([VC, 'Int'], lambda v, b: eq(mpath(v, b, 0), b), pats=lambda v, b: [[mpath(v, b, 0)]]), ['mpath'])
    A('mpath_s', forall([VC, 'Int', 'Int', 'Int'], lambda v, b, i, j: imp(conj(le(0, i), eq(j, add(i, 1)), gt(vlen(v), 0)), eq(mpath(v, b, j), chpos(swaps_of(at(v, i)), mpath(v, b, i)))), pats=lambda v, b, i, j: [[mpath(v, b, i), mpath(v, b, j)]]), ['mpath'])
stay = lambda v, b, i: eq(mpath(v, b, i), mpath(v, b, add(i, 1)))
def hp_inv(L):
    c = L.c; v = V_(c)
    if not len(c.pre_args): return
    b0 = c[0]
    for p in L.mints:
        i = L.int(p)
        yield 'm %s' % p.name, mention(mpath(v, b0, add(i, 1))); yield 'me %s' % p.name, mention(emod(i, vlen(v)))
        for q in L.mints:
            if p is not q: yield 'path %s %s' % (q.name, p.name), eq(L.int(q), mpath(v, b0, i))
        yield 'noplaces %s' % p.name, allk(i, lambda k: mk_not(conj(stay(v, b0, k), gt(mpath(v, b0, k), 0), lt(mpath(v, b0, k), sub(mb(c.this), 1)))), lambda k: [mpath(v, b0, k)])
contract('method::hasplaces(bell) const', prop='C10', inv=[hp_inv],
    ensures=lambda c: eq(c.result, exists(1, lambda k: conj(rng(k, N_(c)), stay(V_(c), c[0], k), gt(mpath(V_(c), c[0], k), 0), lt(mpath(V_(c), c[0], k), sub(mb(c.this), 1))), pats=lambda k: [[mpath(V_(c), c[0], k)]])))
dodge = lambda v, b, k: conj(eq(mpath(v, b, add(k, 2)), mpath(v, b, k)), ne(mpath(v, b, add(k, 1)), mpath(v, b, k)))
def hd_inv(L):
    c = L.c; v = V_(c)
    if not len(c.pre_args): return
    b0 = c[0]; ps = [p for p in L.mints]
    for p in ps:
        i = L.int(p)
        yield 'm %s' % p.name, mention(mpath(v, b0, add(i, 1))); yield 'me %s' % p.name, mention(emod(i, vlen(v)))
        for d in (0, 1):
            for q in ps:
                if p is not q: yield 'path-%d %s %s' % (d, q.name, p.name), imp(ge(i, d), eq(L.int(q), mpath(v, b0, sub(i, d))))
        yield 'nododge %s' % p.name, allk(sub(i, 1), lambda k: mk_not(dodge(v, b0, k)), lambda k: [mpath(v, b0, k)])
        for q in ps:
            if p is not q: yield 'first %s %s' % (p.name, q.name), imp(eq(i, 0), eq(L.int(q), 255))
contract('method::hasdodges(bell) const', prop='C10', inv=[hd_inv], requires=lambda c: lt(c[0], 255),
    ensures=lambda c: eq(c.result, conj(gt(N_(c), 0), exists(1, lambda k: conj(rng(k, N_(c)), dodge(V_(c), c[0], k)), pats=lambda k: [[mpath(V_(c), c[0], k)]]))))
