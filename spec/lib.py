"""Mathematical definitions used by the contracts, and the lemma library.

Every axiom added to LIB is a theorem about the Lean definitions in
/verif/lean/Prelude.lean; lean/ holds the proofs and the checker prints the
statements mechanically from the terms below (tools/lemmas.py).
"""
from cppv.terms import *
from cppv.terms import mangle, quant
from cppv.prove import LIB
from cppv import stl
VI = ('Vec', 'Int')
VB = ('Vec', 'Bool')

def rng(k, n): return conj(le(0, k), lt(k, n))
def allk(n, f, pat=None, lo=0):
    """for all lo <= k < n: f(k)"""
    return forall(1, lambda k: imp(conj(le(lo, k), lt(k, n)), f(k)), pats=(lambda k: [pat(k)] if not isinstance(pat(k), list) else [pat(k)]) if pat else None)

# ---- Euclidean division by a variable (division by literals is built in) ----------------
emod = declare('emod', ('Int', 'Int'), 'Int'); ediv = declare('ediv', ('Int', 'Int'), 'Int')
A = LIB.add
LATE = []       # axioms about values of program classes: added once the classes are known
def late(f): LATE.append(f); return f
II = ['Int', 'Int']
A('emod_rng', forall(II, lambda a, b: imp(gt(b, 0), conj(le(0, emod(a, b)), lt(emod(a, b), b))), pats=lambda a, b: [[emod(a, b)]]), ['emod'])
A('emod_small', forall(II, lambda a, b: imp(conj(le(0, a), lt(a, b)), eq(emod(a, b), a)), pats=lambda a, b: [[emod(a, b)]]), ['emod'])
A('emod_wrap', forall(II, lambda a, b: conj(imp(conj(le(b, a), lt(a, add(b, b))), eq(emod(a, b), sub(a, b))), imp(conj(le(sub(0, b), a), lt(a, 0)), eq(emod(a, b), add(a, b)))), pats=lambda a, b: [[emod(a, b)]]), ['emod'])
A('emod_neg', forall(['Int'] * 3, lambda a, b, c: imp(conj(gt(b, 0), eq(a, sub(0, c))), disj(conj(eq(emod(a, b), 0), eq(emod(c, b), 0)), eq(add(emod(a, b), emod(c, b)), b))), pats=lambda a, b, c: [[emod(a, b), emod(c, b)]]), ['emod'])
A('emod_add', forall(['Int'] * 4, lambda a, b, c, d: imp(conj(gt(b, 0), eq(d, add(a, c))), eq(emod(d, b), ite(lt(add(emod(a, b), emod(c, b)), b), add(emod(a, b), emod(c, b)), sub(add(emod(a, b), emod(c, b)), b)))), pats=lambda a, b, c, d: [[emod(a, b), emod(c, b), emod(d, b)]]), ['emod'])
A('ediv_eq', forall(II, lambda a, b: imp(gt(b, 0), eq(a, add(mul(b, ediv(a, b)), emod(a, b)))), pats=lambda a, b: [[ediv(a, b)]]), ['ediv'])
A('ediv_rng', forall(II, lambda a, b: imp(conj(gt(b, 0), ge(a, 0)), conj(le(0, ediv(a, b)), le(ediv(a, b), a))), pats=lambda a, b: [[ediv(a, b)]]), ['ediv'])
A('ediv_small', forall(II, lambda a, b: imp(conj(le(0, a), lt(a, b)), eq(ediv(a, b), 0)), pats=lambda a, b: [[ediv(a, b)]]), ['ediv'])

# ---- permutations of 0..n-1 as vectors -------------------------------------------
perm = declare('perm', (VI,), 'Bool')
ipos = declare('ipos', (VI, 'Int'), 'Int')          # the position of a bell
rounds = declare('rounds', ('Int',), VI)
ext = lambda a, i: ite(rng(i, vlen(a)), vget(a, i), i)   # a row extended by bells at home

def V(f): return [f]
A = LIB.add
A('perm_rng', forall([VI, 'Int'], lambda v, k: imp(conj(perm(v), rng(k, vlen(v))), rng(vget(v, k), vlen(v))), pats=lambda v, k: [[perm(v), vget(v, k)]]), ['perm'])
A('perm_len', forall([VI], lambda v: imp(perm(v), le(0, vlen(v))), pats=lambda v: [[perm(v)]]), ['perm'])
A('perm_ipos', forall([VI, 'Int'], lambda v, k: imp(conj(perm(v), rng(k, vlen(v))), eq(ipos(v, vget(v, k)), k)), pats=lambda v, k: [[perm(v), vget(v, k)]]), ['perm'])
A('perm_sur', forall([VI, 'Int'], lambda v, b: imp(conj(perm(v), rng(b, vlen(v))), conj(rng(ipos(v, b), vlen(v)), eq(vget(v, ipos(v, b)), b))), pats=lambda v, b: [[perm(v), ipos(v, b)]]), ['perm', 'ipos'])
# a non-permutation (of non-negative length) has a bell out of range or repeated
A('perm_intro', forall([VI], lambda v: disj(perm(v), lt(vlen(v), 0),
    exists(1, lambda k: conj(rng(k, vlen(v)), mk_not(rng(vget(v, k), vlen(v))))),
    exists(2, lambda j, k: conj(le(0, j), lt(j, k), lt(k, vlen(v)), eq(vget(v, j), vget(v, k))))), pats=lambda v: [[perm(v)]]), ['perm'])
A('rounds_len', forall(['Int'], lambda n: imp(le(0, n), eq(vlen(rounds(n)), n)), pats=lambda n: [[rounds(n)]]), ['rounds'])
A('rounds_get', forall(['Int', 'Int'], lambda n, k: imp(le(0, n), eq(vget(rounds(n), k), ite(rng(k, n), k, 0))), pats=lambda n, k: [[vget(rounds(n), k)]]), ['rounds'])
A('rounds_perm', forall(['Int'], lambda n: imp(le(0, n), perm(rounds(n))), pats=lambda n: [[rounds(n)]]), ['rounds'])

# ---- row algebra ---------------------------------------------------------------------
rprod = declare('rprod', (VI, VI), VI)
rquot = declare('rquot', (VI, VI), VI)
rinv = declare('rinv', (VI,), VI)
rpow = declare('rpow', (VI, 'Int'), VI)
def mx(a, b): return ite(lt(a, b), b, a)
nn = lambda *vs: conj(*[le(0, vlen(v)) for v in vs])
A('rprod_len', forall([VI, VI], lambda a, b: imp(nn(a, b), eq(vlen(rprod(a, b)), mx(vlen(a), vlen(b)))), pats=lambda a, b: [[rprod(a, b)]]), ['rprod'])
A('rprod_get', forall([VI, VI, 'Int'], lambda a, b, k: imp(nn(a, b), eq(vget(rprod(a, b), k), ite(rng(k, mx(vlen(a), vlen(b))), ext(a, ext(b, k)), 0))), pats=lambda a, b, k: [[vget(rprod(a, b), k)]]), ['rprod'])
A('rprod_perm', forall([VI, VI], lambda a, b: imp(conj(perm(a), perm(b)), perm(rprod(a, b))), pats=lambda a, b: [[rprod(a, b)]]), ['rprod'])
A('rinv_len', forall([VI], lambda a: imp(perm(a), eq(vlen(rinv(a)), vlen(a))), pats=lambda a: [[rinv(a)]]), ['rinv'])
A('rinv_get', forall([VI, 'Int'], lambda a, k: imp(perm(a), eq(vget(rinv(a), k), ite(rng(k, vlen(a)), ipos(a, k), 0))), pats=lambda a, k: [[vget(rinv(a), k)]]), ['rinv'])
A('rinv_perm', forall([VI], lambda a: imp(perm(a), perm(rinv(a))), pats=lambda a: [[rinv(a)]]), ['rinv'])
A('rquot_len', forall([VI, VI], lambda a, b: imp(conj(perm(a), perm(b)), eq(vlen(rquot(a, b)), mx(vlen(a), vlen(b)))), pats=lambda a, b: [[rquot(a, b)]]), ['rquot'])
A('rquot_get', forall([VI, VI, 'Int'], lambda a, b, k: imp(conj(perm(a), perm(b)), eq(vget(rquot(a, b), k), ite(rng(k, mx(vlen(a), vlen(b))), ext(a, ite(rng(k, vlen(b)), ipos(b, k), k)), 0))), pats=lambda a, b, k: [[vget(rquot(a, b), k)]]), ['rquot'])
A('rquot_perm', forall([VI, VI], lambda a, b: imp(conj(perm(a), perm(b)), perm(rquot(a, b))), pats=lambda a, b: [[rquot(a, b)]]), ['rquot'])
# integral powers (n may be negative): rpow(a,n) for a permutation a
A('rpow_0', forall([VI], lambda a: imp(perm(a), eq(rpow(a, 0), rounds(vlen(a)))), pats=lambda a: [[rpow(a, 0)]]), ['rpow'])
A('rpow_len', forall([VI, 'Int'], lambda a, n: imp(perm(a), eq(vlen(rpow(a, n)), vlen(a))), pats=lambda a, n: [[rpow(a, n)]]), ['rpow'])
A('rpow_perm', forall([VI, 'Int'], lambda a, n: imp(perm(a), perm(rpow(a, n))), pats=lambda a, n: [[rpow(a, n)]]), ['rpow'])
A('rpow_add', forall([VI, 'Int', 'Int'], lambda a, n, m: imp(perm(a), eq(rprod(rpow(a, n), rpow(a, m)), rpow(a, add(n, m)))), pats=lambda a, n, m: [[rprod(rpow(a, n), rpow(a, m))]]), ['rpow', 'rprod'])
A('rpow_1', forall([VI], lambda a: imp(perm(a), eq(rpow(a, 1), a)), pats=lambda a: [[perm(a), rpow(a, 1)]]), ['rpow'])
A('rpow_succ', forall([VI, 'Int'], lambda a, n: imp(perm(a), eq(rprod(a, rpow(a, n)), rpow(a, add(n, 1)))), pats=lambda a, n: [[rprod(a, rpow(a, n))]]), ['rpow', 'rprod'])
A('rpow_succr', forall([VI, 'Int'], lambda a, n: imp(perm(a), eq(rprod(rpow(a, n), a), rpow(a, add(n, 1)))), pats=lambda a, n: [[rprod(rpow(a, n), a)]]), ['rpow', 'rprod'])
A('rpow_inv', forall([VI, 'Int'], lambda a, n: imp(perm(a), eq(rpow(rinv(a), n), rpow(a, sub(0, n)))), pats=lambda a, n: [[rpow(rinv(a), n)]]), ['rpow', 'rinv'])
# order
rorder = declare('rorder', (VI,), 'Int')
A('rorder_pos', forall([VI], lambda a: imp(perm(a), conj(ge(rorder(a), 1), imp(eq(vlen(a), 0), eq(rorder(a), 1)))), pats=lambda a: [[rorder(a)]]), ['rorder'])
A('rorder_pow', forall([VI, 'Int'], lambda a, n: imp(conj(perm(a), ge(n, 0)), eq(rpow(a, mod(n, rorder(a))), rpow(a, n))), pats=lambda a, n: [[rpow(a, mod(n, rorder(a)))]]), ['rorder', 'rpow'])

# ---- membership -----------------------------------------------------------------------------
memb = declare('memb', (VI, 'Int'), 'Bool')       # x is an element of v
midx = declare('midx', (VI, 'Int'), 'Int')        # an index of x in v
A('memb_elim', forall([VI, 'Int'], lambda v, x: imp(memb(v, x), conj(rng(midx(v, x), vlen(v)), eq(vget(v, midx(v, x)), x))), pats=lambda v, x: [[memb(v, x)]]), ['memb'])
A('memb_intro', forall([VI, 'Int', 'Int'], lambda v, x, j: imp(conj(rng(j, vlen(v)), eq(vget(v, j), x)), memb(v, x)), pats=lambda v, x, j: [[memb(v, x), vget(v, j)]]), ['memb'])
A('memb_none', forall(['Int'], lambda x: mk_not(memb(vempty('Int'), x)), pats=lambda x: [[memb(vempty('Int'), x)]]), ['memb'])

AI = ('Array', 'Int')
def _len(a, n): return forall(1, lambda k: imp(mk_not(rng(k, n)), eq(select(a, k), 0)))
A('memb_push', forall(['Int', 'Int', AI, 'Int', 'Int'], lambda m, n, a, x, p: imp(conj(le(0, n), eq(m, add(n, 1))), eq(memb(mkvec(m, store(a, n, x)), p), disj(eq(p, x), memb(mkvec(n, a), p)))),
   pats=lambda m, n, a, x, p: [[memb(mkvec(m, store(a, n, x)), p)]]), ['memb'])

_cat = declare('vcat_Int', (VI, VI), VI); _vsub = declare('vsub_Int', (VI, 'Int', 'Int'), VI)
stl.vcat(var('_a', VI), var('_b', VI)); stl.vsub(var('_a', VI), var('_i', 'Int'), var('_n', 'Int'))
A('memb_cat', forall([VI, VI, 'Int'], lambda a, b, x: imp(nn(a, b), eq(memb(_cat(a, b), x), disj(memb(a, x), memb(b, x)))), pats=lambda a, b, x: [[memb(_cat(a, b), x)]]), ['memb', 'vcat_Int'])
A('memb_sub', forall([VI, 'Int', 'Int', 'Int'], lambda v, i, n, x: imp(conj(le(0, i), le(0, n), le(add(i, n), vlen(v)), memb(_vsub(v, i, n), x)), memb(v, x)), pats=lambda v, i, n, x: [[memb(_vsub(v, i, n), x)]]), ['memb', 'vsub_Int'])
A('memb_split', forall([VI, 'Int', 'Int'], lambda v, i, x: imp(conj(le(0, i), le(i, vlen(v)), memb(v, x)), disj(memb(_vsub(v, 0, i), x), conj(lt(i, vlen(v)), disj(eq(vget(v, i), x), memb(_vsub(v, add(i, 1), sub(sub(vlen(v), i), 1)), x))))), pats=lambda v, i, x: [[memb(v, x), _vsub(v, 0, i)]]), ['memb', 'vsub_Int'])
A('memb_split2', forall([VI, 'Int', 'Int'], lambda v, i, x: imp(conj(le(0, i), le(i, vlen(v)), memb(v, x)), disj(memb(_vsub(v, 0, i), x), memb(_vsub(v, i, sub(vlen(v), i)), x))), pats=lambda v, i, x: [[memb(v, x), _vsub(v, 0, i)]]), ['memb', 'vsub_Int'])
A('memb_upd', forall([VI, 'Int', 'Int', 'Int'], lambda v, i, y, x: imp(conj(rng(i, vlen(v))), eq(memb(vset(v, i, y), x), disj(eq(x, y), memb(_vsub(v, 0, i), x), memb(_vsub(v, add(i, 1), sub(sub(vlen(v), i), 1)), x)))), pats=lambda v, i, y, x: [[memb(vset(v, i, y), x)]]), ['memb'])

def mention(t):
    """a trivially true statement about t (keeps the term around as a trigger)"""
    n = 'mention_' + mangle(t.sort)
    f = declare(n, (t.sort,), 'Bool')
    if n not in _ment:
        _ment.add(n); A(n, forall([t.sort], lambda x: f(x), pats=lambda x: [[f(x)]]), [n])
    return f(t)
_ment = set()
def touch(*fs):
    """quantified mention: makes terms available to the lemmas for every x"""
    out = []
    for f in fs:
        x = bvar('tx', 'Int'); t, pat = f(x)
        out.append(quant('forall', [x], mention(t), [[pat]]))
    return out

# ---- changes -----------------------------------------------------------------------------
def chpos(sw, i):
    """where a change with swaps sw moves position i (an involution)"""
    return ite(memb(sw, i), add(i, 1), ite(memb(sw, sub(i, 1)), sub(i, 1), i))
# applying a change with swaps sw (on n bells) to a row
rapp = declare('rapp', (VI, 'Int', VI), VI)
A('rapp_len', forall([VI, 'Int', VI], lambda r, n, sw: imp(nn(r), eq(vlen(rapp(r, n, sw)), ite(lt(vlen(r), n), n, vlen(r)))), pats=lambda r, n, sw: [[rapp(r, n, sw)]]), ['rapp'])
A('rapp_get', forall([VI, 'Int', VI, 'Int'], lambda r, n, sw, k: imp(nn(r), eq(vget(rapp(r, n, sw), k), ite(rng(k, ite(lt(vlen(r), n), n, vlen(r))), ext(r, chpos(sw, k)), 0))), pats=lambda r, n, sw, k: [[vget(rapp(r, n, sw), k)]]), ['rapp'])

def vecis(v, n, F):
    """v has n elements, the k-th being F(k)"""
    return [eq(vlen(v), n), allk(T(n), lambda k: eq(vget(v, k), F(k)), lambda k: [vget(v, k)])]
def upto2(F, bounds=None):
    """v[k] == F(c,k) for all k below a bound made from a loop variable"""
    def g(L):
        c = L.c
        for p in L.mints:
            i = L.int(p)
            for v_ in L.mvecs:
                v = L.vec(v_)
                if v.sort != VI: continue
                for bn, bd in (bounds(c, i) if bounds else [('', i)]):
                    yield 'upto %s<%s%s' % (v_[0], p.name, bn), allk(bd, lambda k: eq(vget(v, k), F(c, k)), lambda k: [vget(v, k)])
    return g
def mn(a, b): return ite(lt(a, b), a, b)
def keep(L):
    """elements from the loop variable on are untouched; lengths do not change"""
    for v_ in L.mvecs:
        v, v0 = L.vec(v_), L.vec0(v_)
        yield 'samelen %s' % v_[0], eq(vlen(v), vlen(v0))
        for p in L.mints:
            i = L.int(p)
            yield 'rest %s>=%s' % (v_[0], p.name), forall(1, lambda k: imp(ge(k, i), eq(vget(v, k), vget(v0, k))), pats=lambda k: [[vget(v, k)]])

# ---- iteration of a permutation, cycles -------------------------------------------------
riter = declare('riter', (VI, 'Int', 'Int'), 'Int')     # riter(v,n,b): n steps of i -> v[i] from b
rcyc = declare('rcyc', (VI, 'Int'), 'Int')              # length of the cycle of b
A('riter_0', forall([VI, 'Int'], lambda v, b: eq(riter(v, 0, b), b), pats=lambda v, b: [[riter(v, 0, b)]]), ['riter'])
A('riter_s', forall([VI, 'Int', 'Int', 'Int'], lambda v, n, b, i: imp(conj(le(0, n), eq(i, riter(v, n, b))), eq(riter(v, add(n, 1), b), vget(v, i))), pats=lambda v, n, b, i: [[riter(v, n, b), vget(v, i)]]), ['riter'])
A('riter_rng', forall([VI, 'Int', 'Int'], lambda v, n, b: imp(conj(perm(v), le(0, n), rng(b, vlen(v))), rng(riter(v, n, b), vlen(v))), pats=lambda v, n, b: [[riter(v, n, b), perm(v)]]), ['riter'])
A('rcyc_rng', forall([VI, 'Int'], lambda v, b: imp(conj(perm(v), rng(b, vlen(v))), conj(le(1, rcyc(v, b)), le(rcyc(v, b), vlen(v)), eq(riter(v, rcyc(v, b), b), b))), pats=lambda v, b: [[rcyc(v, b)]]), ['rcyc'])
A('rcyc_min', forall([VI, 'Int', 'Int'], lambda v, b, m: imp(conj(perm(v), rng(b, vlen(v)), le(1, m), lt(m, rcyc(v, b))), ne(riter(v, m, b), b)), pats=lambda v, b, m: [[rcyc(v, b), riter(v, m, b)]]), ['rcyc', 'riter'])

# ---- cycle structure: cmin = least bell of a cycle, cidx = steps from it ------------------
cmin = declare('cmin', (VI, 'Int'), 'Int')
cidx = declare('cidx', (VI, 'Int'), 'Int')
okb = lambda v, b: conj(perm(v), rng(b, vlen(v)))
A('cmin_rng', forall([VI, 'Int'], lambda v, b: imp(okb(v, b), conj(le(0, cmin(v, b)), le(cmin(v, b), b), eq(cmin(v, cmin(v, b)), cmin(v, b)), eq(cidx(v, cmin(v, b)), 0))), pats=lambda v, b: [[cmin(v, b)]]), ['cmin'])
A('cidx_rng', forall([VI, 'Int'], lambda v, b: imp(okb(v, b), conj(le(0, cidx(v, b)), lt(cidx(v, b), rcyc(v, cmin(v, b))), eq(riter(v, cidx(v, b), cmin(v, b)), b))), pats=lambda v, b: [[cidx(v, b)]]), ['cidx'])
A('cidx_inj', forall([VI, 'Int', 'Int'], lambda v, b, c: imp(conj(okb(v, b), okb(v, c), eq(cmin(v, b), cmin(v, c)), eq(cidx(v, b), cidx(v, c))), eq(b, c)), pats=lambda v, b, c: [[cidx(v, b), cidx(v, c)]]), ['cidx'])
A('cmin_next', forall([VI, 'Int', 'Int'], lambda v, b, c: imp(conj(okb(v, b), eq(c, vget(v, b))), conj(eq(cmin(v, c), cmin(v, b)),
    eq(cidx(v, c), ite(eq(add(cidx(v, b), 1), rcyc(v, cmin(v, b))), 0, add(cidx(v, b), 1))))), pats=lambda v, b, c: [[cmin(v, b), cmin(v, c), vget(v, b)]]), ['cmin'])
A('cidx_0', forall([VI, 'Int'], lambda v, b: imp(conj(okb(v, b), eq(cidx(v, b), 0)), eq(cmin(v, b), b)), pats=lambda v, b: [[cidx(v, b)]]), ['cidx'])
# number of cycles whose least bell is below f
nlead = declare('nlead', (VI, 'Int'), 'Int')
A('nlead_0', forall([VI], lambda v: eq(nlead(v, 0), 0), pats=lambda v: [[nlead(v, 0)]]), ['nlead'])
A('nlead_s', forall([VI, 'Int', 'Int'], lambda v, f, g: imp(conj(okb(v, f), eq(g, add(f, 1))), eq(nlead(v, g), ite(eq(cmin(v, f), f), add(nlead(v, f), 1), nlead(v, f)))), pats=lambda v, f, g: [[nlead(v, f), nlead(v, g), cmin(v, f)]]), ['nlead', 'cmin'])
A('nlead_rng', forall([VI, 'Int'], lambda v, f: imp(conj(perm(v), le(0, f), le(f, vlen(v))), conj(le(0, nlead(v, f)), le(nlead(v, f), f), imp(gt(f, 0), le(1, nlead(v, f))))), pats=lambda v, f: [[nlead(v, f)]]), ['nlead'])
# the printed cycles: cyq(v,l,m) = everything before leader l, then m bells of its cycle; each cycle is followed by a comma
bsym = declare('bsym', ('Int',), 'Int')            # the symbol of a bell ('*' if it has none)
cyq = declare('cyq', (VI, 'Int', 'Int'), VI)
COMMA = 44
def vpush_(s, x): return mkvec(add(vlen(s), 1), store(varr(s), vlen(s), x))
A('cyq_00', forall([VI], lambda v: eq(cyq(v, 0, 0), vempty('Int')), pats=lambda v: [[cyq(v, 0, 0)]]), ['cyq'])
A('cyq_s', forall([VI, 'Int', 'Int', 'Int', 'Int'], lambda v, l, m, b, m1: imp(conj(okb(v, l), le(0, m), lt(m, rcyc(v, l)), eq(m1, add(m, 1)), eq(b, riter(v, m, l))),
    eq(cyq(v, l, m1), vpush_(cyq(v, l, m), bsym(b)))), pats=lambda v, l, m, b, m1: [[cyq(v, l, m), cyq(v, l, m1), bsym(b)]]), ['cyq', 'bsym'])
A('cyq_n', forall([VI, 'Int', 'Int'], lambda v, f, g: imp(conj(okb(v, f), eq(g, add(f, 1))), eq(cyq(v, g, 0), ite(eq(cmin(v, f), f), vpush_(cyq(v, f, rcyc(v, f)), COMMA), cyq(v, f, 0)))), pats=lambda v, f, g: [[cyq(v, f, 0), cyq(v, g, 0)]]), ['cyq'])
A('cyq_len', forall([VI, 'Int', 'Int'], lambda v, l, m: imp(conj(perm(v), le(0, l), le(l, vlen(v)), le(0, m), disj(eq(m, 0), conj(lt(l, vlen(v)), le(m, rcyc(v, l)), eq(cmin(v, l), l)))),
    conj(le(0, vlen(cyq(v, l, m))), le(vlen(cyq(v, l, m)), scale(2, vlen(v))), imp(gt(add(l, m), 0), gt(vlen(cyq(v, l, m)), 0)))), pats=lambda v, l, m: [[cyq(v, l, m)]]), ['cyq'])
A('cyq_all', forall([VI], lambda v: imp(perm(v), eq(vlen(cyq(v, vlen(v), 0)), add(vlen(v), nlead(v, vlen(v))))), pats=lambda v: [[cyq(v, vlen(v), 0)]]), ['cyq', 'nlead'])

# ---- highest common factor, lowest common multiple ----------------------------------------
zgcd = declare('zgcd', ('Int', 'Int'), 'Int'); zlcm = declare('zlcm', ('Int', 'Int'), 'Int')
A('zgcd_0', forall(['Int'], lambda a: imp(ge(a, 0), conj(eq(zgcd(a, 0), a), eq(zgcd(0, a), a))), pats=lambda a: [[zgcd(a, 0)], [zgcd(0, a)]]), ['zgcd'])
A('zgcd_sym', forall(II, lambda a, b: eq(zgcd(a, b), zgcd(b, a)), pats=lambda a, b: [[zgcd(a, b)]]), ['zgcd'])
A('zgcd_mod', forall(II, lambda a, b: imp(conj(ge(a, 0), gt(b, 0)), eq(zgcd(b, emod(a, b)), zgcd(a, b))), pats=lambda a, b: [[zgcd(a, b), emod(a, b)], [zgcd(b, emod(a, b))]]), ['zgcd', 'emod'])
A('zgcd_rng', forall(II, lambda a, b: imp(conj(gt(a, 0), gt(b, 0)), conj(ge(zgcd(a, b), 1), le(zgcd(a, b), a), le(zgcd(a, b), b))), pats=lambda a, b: [[zgcd(a, b)]]), ['zgcd'])
A('zlcm_1', forall(['Int'], lambda a: imp(ge(a, 0), conj(eq(zlcm(a, 1), a), eq(zlcm(1, a), a))), pats=lambda a: [[zlcm(a, 1)], [zlcm(1, a)]]), ['zlcm'])
A('zlcm_0', forall(['Int'], lambda a: imp(ge(a, 0), conj(eq(zlcm(a, 0), 0), eq(zlcm(0, a), 0))), pats=lambda a: [[zlcm(a, 0)], [zlcm(0, a)]]), ['zlcm'])
A('zlcm_pos', forall(II, lambda a, b: imp(conj(gt(a, 0), gt(b, 0)), conj(ge(zlcm(a, b), a), ge(zlcm(a, b), b))), pats=lambda a, b: [[zlcm(a, b)]]), ['zlcm'])
A('zlcm_div', forall(['Int'] * 3, lambda a, b, g: imp(conj(gt(a, 0), gt(b, 0), eq(g, zgcd(a, b))), eq(mul(ediv(a, g), b), zlcm(a, b))), pats=lambda a, b, g: [[zlcm(a, b), ediv(a, g)]]), ['zlcm', 'ediv'])

# ---- the order of a row as the lcm of its cycle lengths --------------------------------------
olcm = declare('olcm', (VI, 'Int'), 'Int')       # lcm of the lengths of the cycles with leader below f
A('olcm_0', forall([VI], lambda v: eq(olcm(v, 0), 1), pats=lambda v: [[olcm(v, 0)]]), ['olcm'])
A('olcm_s', forall([VI, 'Int', 'Int'], lambda v, f, g: imp(conj(okb(v, f), eq(g, add(f, 1))), eq(olcm(v, g), ite(eq(cmin(v, f), f), zlcm(olcm(v, f), rcyc(v, f)), olcm(v, f)))), pats=lambda v, f, g: [[olcm(v, f), olcm(v, g)]]), ['olcm'])
A('olcm_le', forall([VI, 'Int'], lambda v, f: imp(conj(perm(v), le(0, f), le(f, vlen(v))), conj(ge(olcm(v, f), 1), le(olcm(v, f), rorder(v)))), pats=lambda v, f: [[olcm(v, f)]]), ['olcm'])
A('olcm_order', forall([VI], lambda v: imp(perm(v), eq(olcm(v, vlen(v)), rorder(v))), pats=lambda v: [[rorder(v), olcm(v, vlen(v))]]), ['olcm', 'rorder'])
# where position p of the printed cycles lies: leader clead, offset coff (the comma has offset rcyc)
clead = declare('clead', (VI, 'Int'), 'Int'); coff = declare('coff', (VI, 'Int'), 'Int')
cyt = lambda v: cyq(v, vlen(v), 0)
A('clead_rng', forall([VI, 'Int'], lambda v, p: imp(conj(perm(v), rng(p, vlen(cyt(v)))), conj(rng(clead(v, p), vlen(v)), eq(cmin(v, clead(v, p)), clead(v, p)), le(0, coff(v, p)), le(coff(v, p), rcyc(v, clead(v, p))),
    eq(p, add(vlen(cyq(v, clead(v, p), 0)), coff(v, p))),
    eq(vget(cyt(v), p), ite(eq(coff(v, p), rcyc(v, clead(v, p))), COMMA, bsym(riter(v, coff(v, p), clead(v, p))))))), pats=lambda v, p: [[clead(v, p)], [coff(v, p)]]), ['clead'])
A('clead_0', forall([VI], lambda v: imp(conj(perm(v), gt(vlen(v), 0)), conj(eq(clead(v, 0), 0), eq(coff(v, 0), 0), gt(vlen(cyt(v)), 0))), pats=lambda v: [[clead(v, 0)]]), ['clead'])
A('clead_s', forall([VI, 'Int', 'Int'], lambda v, p, q: imp(conj(perm(v), le(0, p), eq(q, add(p, 1)), lt(q, vlen(cyt(v)))),
    ite(lt(coff(v, p), rcyc(v, clead(v, p))), conj(eq(clead(v, q), clead(v, p)), eq(coff(v, q), add(coff(v, p), 1))),
        conj(eq(coff(v, q), 0), gt(clead(v, q), clead(v, p)), eq(olcm(v, clead(v, q)), olcm(v, add(clead(v, p), 1)))))), pats=lambda v, p, q: [[clead(v, p), clead(v, q)]]), ['clead', 'olcm'])
A('clead_last', forall([VI, 'Int'], lambda v, p: imp(conj(perm(v), gt(vlen(v), 0), eq(p, sub(vlen(cyt(v)), 1))), conj(eq(coff(v, p), rcyc(v, clead(v, p))), eq(olcm(v, add(clead(v, p), 1)), rorder(v)))), pats=lambda v, p: [[clead(v, p)]]), ['clead', 'olcm'])
A('clead_comma', forall([VI, 'Int'], lambda v, p: imp(conj(perm(v), rng(p, vlen(cyt(v)))), eq(eq(vget(cyt(v), p), COMMA), eq(coff(v, p), rcyc(v, clead(v, p))))), pats=lambda v, p: [[clead(v, p), vget(cyt(v), p)]]), ['clead'])
A('rorder_inv', forall([VI], lambda a: imp(perm(a), eq(rorder(rinv(a)), rorder(a))), pats=lambda a: [[rorder(rinv(a))]]), ['rorder', 'rinv'])

# ---- factorial, fibonacci, powers -----------------------------------------------------------
zfact = declare('zfact', ('Int',), 'Int'); zfib = declare('zfib', ('Int',), 'Int'); zpow = declare('zpow', ('Int', 'Int'), 'Int')
zfall = declare('zfall', ('Int', 'Int'), 'Int')  # n (n-1) ... k
A('zfall_n', forall(II, lambda n, k: imp(conj(ge(n, 1), eq(n, k)), eq(zfall(n, k), n)), pats=lambda n, k: [[zfall(n, k)]]), ['zfall'])
A('zfall_s', forall(['Int'] * 3, lambda n, k, j: imp(conj(eq(j, sub(k, 1)), le(1, j), lt(j, n)), eq(mul(zfall(n, k), j), zfall(n, j))), pats=lambda n, k, j: [[zfall(n, k), zfall(n, j)]]), ['zfall'])
A('zfall_1', forall(II, lambda n, k: imp(conj(ge(n, 1), eq(k, 1)), eq(zfall(n, k), zfact(n))), pats=lambda n, k: [[zfall(n, k), zfact(n)]]), ['zfall', 'zfact'])
A('zfall_rng', forall(II, lambda n, k: imp(conj(le(1, k), le(k, n), le(n, 12)), conj(ge(zfall(n, k), 1), le(zfall(n, k), 479001600))), pats=lambda n, k: [[zfall(n, k)]]), ['zfall'])
A('zfact_0', forall(['Int'], lambda n: imp(le(0, n), ite(eq(n, 0), eq(zfact(n), 1), eq(zfact(n), mul(n, zfact(sub(n, 1)))))), pats=lambda n: [[zfact(n)]]), ['zfact_unfold'])
A('zfact_00', eq(zfact(0), 1), ['zfact'])
A('zfib_01', conj(eq(zfib(0), 1), eq(zfib(1), 1)), ['zfib'])
A('zfib_s', forall(['Int'] * 3, lambda n, m, k: imp(conj(ge(n, 0), eq(m, add(n, 1)), eq(k, add(n, 2))), eq(zfib(k), add(zfib(n), zfib(m)))), pats=lambda n, m, k: [[zfib(n), zfib(m), zfib(k)]]), ['zfib'])
A('zfib_rng', forall(['Int'], lambda n: imp(conj(ge(n, 0), le(n, 46)), conj(ge(zfib(n), 1), le(zfib(n), 2971215073))), pats=lambda n: [[zfib(n)]]), ['zfib'])
A('zpow_0', forall(['Int'], lambda b: eq(zpow(b, 0), 1), pats=lambda b: [[zpow(b, 0)]]), ['zpow'])
A('zpow_s', forall(['Int'] * 3, lambda b, n, m: imp(conj(ge(n, 0), eq(m, add(n, 1))), eq(zpow(b, m), mul(b, zpow(b, n)))), pats=lambda b, n, m: [[zpow(b, n), zpow(b, m)]]), ['zpow'])
A('zpow_2', forall(['Int'] * 3, lambda b, n, m: imp(conj(ge(n, 0), eq(m, scale(2, n))), eq(zpow(b, m), mul(zpow(b, n), zpow(b, n)))), pats=lambda b, n, m: [[zpow(b, n), zpow(b, m)]]), ['zpow'])
A('zpow_mono', forall(['Int'] * 3, lambda b, n, m: imp(conj(ge(n, 0), ge(m, n), ne(b, 0)), conj(imp(ge(zpow(b, n), 0), le(zpow(b, n), ite(ge(zpow(b, m), 0), zpow(b, m), sub(0, zpow(b, m))))), imp(lt(zpow(b, n), 0), le(sub(0, zpow(b, n)), ite(ge(zpow(b, m), 0), zpow(b, m), sub(0, zpow(b, m))))))), pats=lambda b, n, m: [[zpow(b, n), zpow(b, m)]]), ['zpow'])
A('zpow_z', forall(II, lambda b, n: imp(conj(eq(b, 0), ge(n, 1)), eq(zpow(b, n), 0)), pats=lambda b, n: [[zpow(b, n)]]), ['zpow'])
