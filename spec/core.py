"""Contracts for bells, rows and changes."""
from cppv.terms import *
from cppv.contract import contract, INV, CONTRACTS as C_
from cppv import stl
from .lib import *
MAXROW = 256      # bells are bytes
MAXCH = 255
INTMAX = 2**31 - 1

INV['row'] = lambda v: [perm(v), le(vlen(v), MAXROW)]
def swaps_of(c): return recget(c, 'swaps')
def n_of(c): return recget(c, 'n')
def legal(n, sw):
    """disjoint adjacent pairs, in ascending order, inside the stage"""
    return [forall(2, lambda j, k: imp(conj(le(0, j), lt(j, k), lt(k, vlen(sw))), le(add(vget(sw, j), 2), vget(sw, k))), pats=lambda j, k: [[vget(sw, j), vget(sw, k)]]),
            forall(1, lambda k: imp(rng(k, vlen(sw)), conj(le(0, vget(sw, k)), le(add(vget(sw, k), 2), n))), pats=lambda k: [[vget(sw, k)]])]
INV['change'] = lambda c: [le(0, n_of(c)), le(n_of(c), MAXCH)] + legal(n_of(c), swaps_of(c))

# ---- loop-invariant candidate generators -----------------------------------------------
def ivals(L):
    """(name, term) integer quantities that a loop changes"""
    out = [(p.name, L.int(p)) for p in L.mints]
    return out
def vvals(L, sort=VI):
    return [(v[0], L.vec(v), L.vec0(v)) for v in L.mvecs if L.vec(v).sort == sort]
def upto(F, name='upto', post=True):
    """v[k] == F(c,k) for k < i; v unchanged elsewhere"""
    def g(L):
        for iname, i in ivals(L):
            for vn, v, v0 in vvals(L):
                yield '%s %s<%s' % (name, vn, iname), allk(i, lambda k: eq(vget(v, k), F(L.c, k)), lambda k: [vget(v, k)])
    return g
def rest(L):
    for iname, i in ivals(L):
        for vn, v, v0 in vvals(L):
            if v is not v0 or L.moment != 'entry':
                yield 'rest %s>=%s' % (vn, iname), forall(1, lambda k: imp(ge(k, i), eq(vget(v, k), vget(v0, k))), pats=lambda k: [[vget(v, k)]])
def scatter(A, G, N=None, name='scatter'):
    """v[A(c,k)] == G(c,k) for k < i"""
    def g(L):
        for iname, i in ivals(L):
            for vn, v, v0 in vvals(L):
                yield '%s %s<%s' % (name, vn, iname), allk(i, lambda k: eq(vget(v, A(L.c, k)), G(L.c, k)), lambda k: [A(L.c, k)])
    return g
def lenk(L):
    for vn, v, v0 in vvals(L): yield 'len %s' % vn, eq(vlen(v), vlen(v0))

D = lambda c: c.this          # a row is its data

# ---- row construction -----------------------------------------------------------------
contract('row::row(int)', prop='C03', requires=lambda c: [le(0, c[0]), le(c[0], MAXROW)], ensures=lambda c: eq(c.this1, rounds(c[0])))
contract('row::row()', prop='C01', ensures=lambda c: eq(c.this1, rounds(0)))
contract('row::rounds()', prop='C03', noinv=('this',), requires=lambda c: le(vlen(c.this), MAXROW), ensures=lambda c: eq(c.this1, rounds(vlen(c.this))),
         inv=[upto(lambda c, k: k)])
contract('row::rounds(int)', prop='C03', requires=lambda c: [le(0, c[0]), le(c[0], MAXROW)], ensures=lambda c: eq(c.result, rounds(c[0])))
contract('row::validate() const', prop='C01', noinv=('this', 'this1'), requires=lambda c: [],
         throws=[('ringing::row::invalid', lambda c: mk_not(perm(c.this)))],
         inv=[lambda L: found_inv(L)])
def found_inv(L):
    v = L.c.this
    for fn, f, f0 in vvals(L, VB):
        for iname, i in ivals(L):
            yield 'cleared %s<%s' % (fn, iname), allk(i, lambda k: eq(vget(f, k), FALSE), lambda k: [vget(f, k)])
            yield 'seen %s<%s' % (fn, iname), forall(1, lambda b: imp(conj(rng(b, vlen(v)), vget(f, b)), exists(1, lambda j: conj(le(0, j), lt(j, i), eq(vget(v, j), b)), pats=lambda j: [[vget(v, j)]])), pats=lambda b: [[vget(f, b)]])
            yield 'mark %s<%s' % (fn, iname), allk(i, lambda j: conj(rng(vget(v, j), vlen(v)), vget(f, vget(v, j))), lambda j: [vget(v, j)])
            yield 'dist %s<%s' % (fn, iname), forall(2, lambda j, k: imp(conj(le(0, j), lt(j, k), lt(k, i)), ne(vget(v, j), vget(v, k))), pats=lambda j, k: [[vget(v, j), vget(v, k)]])
contract('row::row(const std::vector<bell> &)', prop='C01', throws=[('ringing::row::invalid', lambda c: mk_not(perm(c[0])))], exitghost=lambda c: vget(c[0], ipos(c[0], 256)), ensures=lambda c: eq(c.this1, c[0]))

# ---- row algebra -----------------------------------------------------------------------
contract('row::operator*(const row &) const', prop='C02', ensures=lambda c: eq(c.result, rprod(c.this, c[0])), alias=[0],
         inv=[upto(lambda c, k: ext(c.this, ext(c[0], k)))])
contract('row::operator*=(const row &)', prop='C02', ensures=lambda c: eq(c.this1, rprod(c.this, c[0])), alias=[0])
contract('row::operator/(const row &) const', prop='C02', ensures=lambda c: eq(c.result, rquot(c.this, c[0])), alias=[0],
         inv=[scatter(lambda c, k: vget(c[0], k), lambda c, k: ext(c.this, k)), rest, lambda L: quot_inv(L)])
def quot_inv(L):
    c = L.c; a, b = c.this, c[0]
    for iname, i in ivals(L):
        for vn, q, q0 in vvals(L):
            yield 'quot %s<%s' % (vn, iname), allk(vlen(q), lambda k: imp(lt(ite(rng(k, vlen(b)), ipos(b, k), k), i), eq(vget(q, k), ext(a, ite(rng(k, vlen(b)), ipos(b, k), k)))), lambda k: [vget(q, k)])
contract('row::operator/=(const row &)', prop='C02', ensures=lambda c: eq(c.this1, rquot(c.this, c[0])), alias=[0])
contract('row::inverse() const', prop='C02', ensures=lambda c: eq(c.result, rinv(c.this)),
         inv=[lambda L: inv_inv(L)])
def inv_inv(L):
    a = L.c.this
    for iname, i in ivals(L):
        for vn, q, q0 in vvals(L):
            yield 'inverse %s<%s' % (vn, iname), allk(vlen(a), lambda k: imp(lt(ipos(a, k), i), eq(vget(q, k), ipos(a, k))), lambda k: [vget(q, k)])
contract('row::conjugate(const row &) const', prop='C02', ensures=lambda c: eq(c.result, rprod(rprod(rinv(c[0]), c.this), c[0])), alias=[0])
contract('row::power(int) const', prop='C02', decreases=lambda c: ite(ge(c[0], 0), c[0], sub(0, c[0])), requires=lambda c: le(rorder(c.this), INTMAX), ensures=lambda c: eq(c.result, rpow(c.this, c[0])))

# ---- changes ------------------------------------------------------------------------------
SW = lambda c: swaps_of(c.this)
SW1 = lambda c: swaps_of(c.this1)
memb_def = lambda sw, x: memb(sw, x)
contract('change::change()', prop='C06', ensures=lambda c: [eq(n_of(c.this1), 0), eq(vlen(SW1(c)), 0)])
contract('change::change(int)', prop='C06', requires=lambda c: [le(0, c[0]), le(c[0], MAXCH)], ensures=lambda c: [eq(n_of(c.this1), c[0]), eq(SW1(c), vempty('Int'))])
contract('change::bells() const', prop='C07', ensures=lambda c: eq(c.result, n_of(c.this)))
def pos_inv(L):
    """everything before the iterator is smaller than / different from ..."""
    c = L.c
    if c.this is None or c.this.sort[0] != 'Rec': return
    sw = SW(c)
    for iname, i in ivals(L):
        if len(c.pre_args) and isinstance(c[0], Term) and c[0].sort == 'Int':
            for d in (-1, 0, 1):
                yield 'lt%d %s' % (d, iname), allk(i, lambda k: lt(vget(sw, k), add(c[0], d)), lambda k: [vget(sw, k)])
            for d in (-1, 0, 1):
                yield 'ne%d %s' % (d, iname), allk(i, lambda k: ne(vget(sw, k), add(c[0], d)), lambda k: [vget(sw, k)])
contract('change::findswap(bell) const', prop='C07', ensures=lambda c: eq(c.result, memb(SW(c), c[0])), inv=[pos_inv])
contract('change::findplace(bell) const', prop='C07', ensures=lambda c: eq(c.result, eq(chpos(SW(c), c[0]), c[0])), inv=[pos_inv])
contract('change::swappair(bell)', prop='C07', throws=[('ringing::change::out_of_range', lambda c: gt(add(c[0], 2), n_of(c.this)))],
         ensures=lambda c: [eq(n_of(c.this1), n_of(c.this)), eq(c.result, mk_not(memb(SW(c), c[0]))),
            forall(1, lambda x: eq(memb(SW1(c), x), ite(eq(x, c[0]), mk_not(memb(SW(c), c[0])), ite(disj(eq(x, add(c[0], 1)), eq(x, sub(c[0], 1))), FALSE, memb(SW(c), x)))), pats=lambda x: [[memb(SW1(c), x)]])],
         exitghost=lambda c: touch(*[(lambda d: lambda x: (vget(SW1(c), add(midx(SW(c), x), d)), memb(SW(c), x)))(d) for d in (-1, 0, 1)]) + [vget(SW1(c), add(midx(SW1(c), c[0]), 0)), memb(SW(c), c[0]), memb(SW(c), add(c[0], 1)), memb(SW(c), sub(c[0], 1))], inv=[pos_inv])
contract('change::sign() const', prop='C07', ensures=lambda c: eq(c.result, ite(eq(mod(vlen(SW(c)), 2), 0), 1, -1)))
PLACE = lambda sw, p: eq(chpos(sw, p), p)
def internal_inv(L):
    c = L.c; sw = SW(c)
    for p in L.mints:
        if p.kind != 'ptr': continue
        i = L.int(p)
        for q in L.mints:
            if q.kind == 'ptr': continue
            b = L.int(q)
            yield 'prev %s %s' % (q.name, p.name), eq(b, vget(sw, sub(i, 1)))
            yield 'ment2', mention(memb(sw, add(b, 2))); yield 'ment1', mention(memb(sw, add(b, 1)))
            yield 'none %s' % q.name, forall(1, lambda k: imp(conj(lt(0, k), lt(k, add(b, 2))), mk_not(PLACE(sw, k))), pats=lambda k: [[memb(sw, k)]])
contract('change::internal() const', prop='C07',
         exitghost=lambda c: [memb(SW(c), t) for x in (num(0), num(1), num(2), vget(SW(c), 0), add(vget(SW(c), sub(vlen(SW(c)), 1)), 2)) for t in (x, sub(x, 1))],
         ensures=lambda c: eq(c.result, exists(1, lambda p: conj(lt(0, p), lt(p, sub(n_of(c.this), 1)), PLACE(SW(c), p)), pats=lambda p: [[memb(SW(c), p)]])), inv=[internal_inv])
def move_inv(L):
    c = L.c
    sw = swaps_of(c[1]); b0 = c[0]
    for p in L.mints:
        if p.kind != 'ptr': continue
        i = L.int(p)
        for q in L.mints:
            if q.kind == 'ptr': continue
            b = L.int(q)
            yield 'where', disj(eq(b, b0), conj(eq(b, sub(b0, 1)), memb(sw, sub(b0, 1))), conj(eq(b, add(b0, 1)), memb(sw, b0)))
            yield 'before', imp(eq(b, b0), allk(i, lambda k: lt(vget(sw, k), sub(b0, 1)), lambda k: [vget(sw, k)]))
            yield 'after', imp(ne(b, b0), forall(1, lambda k: imp(conj(le(i, k), lt(k, vlen(sw))), gt(vget(sw, k), b0)), pats=lambda k: [[vget(sw, k)]]))
contract('operator*=(bell &, const change &)', prop='C08', ret_ref=0, ensures=lambda c: eq(c.post(0), chpos(swaps_of(c[1]), c[0])), inv=[move_inv],
         exitghost=lambda c: [memb(swaps_of(c[1]), c[0]), memb(swaps_of(c[1]), sub(c[0], 1))])
def apply_inv(L):
    c = L.c; r0, sw = c[0], swaps_of(c[1])
    n = n_of(c[1])
    for vn, v, v0 in vvals(L):
        yield 'grown', le(vlen(v), ite(lt(vlen(r0), n), n, vlen(r0)))
        yield 'm', mention(midx(sw, 0))
        for p in L.mints:
            if p.kind == 'ptr':
                j = L.int(p); yield 'mp', imp(lt(j, vlen(sw)), mention(memb(sw, vget(sw, j))))
        yield 'extended', allk(vlen(v), lambda k: eq(vget(v, k), ext(r0, k)), lambda k: [vget(v, k)])
        for p in L.mints:
            if p.kind != 'ptr': continue
            i = L.int(p)
            don = lambda x: conj(memb(sw, x), lt(midx(sw, x), i))
            yield 'applied %s %s' % (vn, p.name), allk(vlen(v), lambda k: eq(vget(v, k), ext(r0, ite(don(k), add(k, 1), ite(don(sub(k, 1)), sub(k, 1), k)))), lambda k: [vget(v, k)])
contract('operator*=(row &, const change &)', prop='C08', ret_ref=0, ensures=lambda c: eq(c.post(0), rapp(c[0], n_of(c[1]), swaps_of(c[1]))), inv=[apply_inv])
contract('row::operator*(const change &) const', prop='C08', ensures=lambda c: eq(c.result, rapp(c.this, n_of(c[0]), swaps_of(c[0]))))
def places_inv(L):
    c = L.c; sw = SW(c)
    for q in L.mints:
        if q.kind == 'ptr': continue
        b = L.int(q)
        for vn, v, v0 in vvals(L):
            if not L.X.suppress or True:
                yield 'm1', mention(memb(sw, b)); yield 'm2', mention(memb(sw, sub(b, 1)))
            yield 'all %s %s' % (vn, q.name), forall(1, lambda p: eq(memb(v, p), conj(rng(p, b), PLACE(sw, p))), pats=lambda p: [[memb(v, p)]])
            yield 'asc %s' % vn, forall(2, lambda j, k: imp(conj(le(0, j), lt(j, k), lt(k, vlen(v))), lt(vget(v, j), vget(v, k))), pats=lambda j, k: [[vget(v, j), vget(v, k)]])
            yield 'lt %s %s' % (vn, q.name), allk(vlen(v), lambda k: conj(le(0, vget(v, k)), lt(vget(v, k), b)), lambda k: [vget(v, k)])
        for p in L.ints:
            if p.kind == 'ptr':
                i = L.int(p)
                yield 'free %s %s' % (q.name, p.name), eq(b, ite(le(i, 0), 0, add(vget(sw, sub(i, 1)), 2)))
                yield 'free>= %s %s' % (q.name, p.name), ge(b, ite(le(i, 0), 0, add(vget(sw, sub(i, 1)), 2)))
                yield 'free<= %s %s' % (q.name, p.name), imp(lt(i, vlen(sw)), le(b, vget(sw, i)))
                yield 'freen %s' % q.name, le(b, n_of(c.this))
contract('change::places() const', prop='C07', ensures=lambda c: [forall(1, lambda p: eq(memb(c.result, p), conj(rng(p, n_of(c.this)), PLACE(SW(c), p))), pats=lambda p: [[memb(c.result, p)]]),
             forall(2, lambda j, k: imp(conj(le(0, j), lt(j, k), lt(k, vlen(c.result))), lt(vget(c.result, j), vget(c.result, k))), pats=lambda j, k: [[vget(c.result, j), vget(c.result, k)]])], inv=[places_inv])

# ---- the named rows ----------------------------------------------------------------------
okn = lambda c: [le(0, c[0]), le(c[0], MAXROW)]
halfn = lambda n: div(add(n, 1), 2)
def F_queens(n, k): return ite(le(n, 2), k, ite(lt(k, halfn(n)), scale(2, k), add(scale(2, sub(k, halfn(n))), 1)))
def F_kings(n, k): return ite(le(n, 2), k, ite(lt(k, halfn(n)), sub(scale(2, halfn(n)), add(scale(2, k), 2)), add(scale(2, sub(k, halfn(n))), 1)))
def F_tittums(n, k): return ite(eq(mod(k, 2), 0), div(k, 2), add(halfn(n), div(k, 2)))
def bnds_half(c, i):
    h = halfn(c[0]); return [('', i), (' half', mn(i, h)), ('+half', add(i, h))]
contract('row::queens(int)', prop='C03', requires=okn, ensures=lambda c: vecis(c.result, c[0], lambda k: F_queens(c[0], k)), inv=[upto2(lambda c, k: F_queens(c[0], k), bnds_half), keep])
contract('row::kings(int)', prop='C03', requires=okn, ensures=lambda c: vecis(c.result, c[0], lambda k: F_kings(c[0], k)), inv=[upto2(lambda c, k: F_kings(c[0], k), bnds_half), keep])
def titt_inv(L):
    c = L.c
    for p in L.mints:
        i = L.int(p)
        for v_ in L.mvecs:
            v = L.vec(v_)
            yield 'even %s' % p.name, allk(i, lambda k: imp(eq(mod(k, 2), 0), eq(vget(v, k), F_tittums(c[0], k))), lambda k: [vget(v, k)])
            yield 'odd %s' % p.name, allk(i, lambda k: imp(eq(mod(k, 2), 1), eq(vget(v, k), F_tittums(c[0], k))), lambda k: [vget(v, k)])
            yield 'evens', allk(c[0], lambda k: imp(eq(mod(k, 2), 0), eq(vget(v, k), F_tittums(c[0], k))), lambda k: [vget(v, k)])
        yield 'par0 %s' % p.name, eq(mod(i, 2), 0)
        yield 'par1 %s' % p.name, eq(mod(i, 2), 1)
        yield 'cnt %s' % p.name, le(i, c[0]); yield 'cnt1 %s' % p.name, le(i, add(c[0], 1))
        for q in L.mints:
            j = L.int(q)
            if q is not p:
                yield 'halfway %s %s' % (p.name, q.name), eq(j, add(halfn(c[0]), div(i, 2)))
                yield 'halfw %s %s' % (p.name, q.name), eq(j, div(i, 2))
contract('row::tittums(int)', prop='C03', requires=okn, ensures=lambda c: vecis(c.result, c[0], lambda k: F_tittums(c[0], k)), inv=[titt_inv, keep])
contract('row::reverse_rounds(int)', prop='C03', requires=okn, ensures=lambda c: vecis(c.result, c[0], lambda k: sub(sub(c[0], k), 1)), inv=[upto2(lambda c, k: sub(sub(c[0], k), 1)), keep])
def F_rev(nw, nh, k): return ite(conj(le(nh, k), lt(k, add(nh, nw))), sub(add(scale(2, nh), nw), add(k, 1)), k)
rr_n = lambda c: ite(eq(c[2], 0), add(c[0], c[1]), c[2])
contract('row::reverse_rounds(int, int, int)', prop='C03', requires=lambda c: [le(0, c[0]), le(0, c[1]), disj(eq(c[2], 0), le(add(c[0], c[1]), c[2])), le(add(c[0], c[1]), MAXROW), le(c[2], MAXROW)],
         ensures=lambda c: vecis(c.result, rr_n(c), lambda k: F_rev(c[0], c[1], k)), inv=[upto2(lambda c, k: F_rev(c[0], c[1], k)), keep])
# plain bob lead heads: the two changes of a plain hunt
def pair_at(n, h, x): return conj(le(h, x), le(x, sub(n, 2)), eq(mod(sub(x, h), 2), 0))
def hunt(n, h, k): return ite(pair_at(n, h, k), add(k, 1), ite(pair_at(n, h, sub(k, 1)), sub(k, 1), k))
def pblh_inv(L):
    c = L.c; n, h = c[0], c[1]
    for p in L.mints:
        i = L.int(p)
        for d in (0, 1):
            yield 'par%d %s' % (d, p.name), eq(mod(sub(i, h), 2), d)
            for v_ in L.mvecs:
                v = L.vec(v_)
                yield 'swaps%d %s' % (d, p.name), forall(1, lambda x: eq(memb(v, x), conj(le(add(h, d), x), lt(x, i), eq(mod(sub(x, h), 2), d))), pats=lambda x: [[memb(v, x)]])
contract('row::pblh(int, int)', prop='C03', requires=lambda c: [le(0, c[0]), le(c[0], MAXCH), le(0, c[1]), le(c[1], 2**30)],
         ensures=lambda c: pblh_post(c.result, c[0], c[1]),
         exitghost=lambda c: touch(*[(lambda d: lambda k: (hunt(c[0], c[1], add(k, d)), vget(c.result, k)))(d) for d in (-1, 0, 1)]), inv=[pblh_inv])
def pblh_post(v, n, h):
    g = lambda k: vget(v, k); odd = lambda k: eq(mod(sub(k, h), 2), 1)
    cases = [(lambda k: lt(k, h), lambda k: k),
             (lambda k: eq(k, h), lambda k: ite(lt(add(h, 1), n), add(h, 1), h)),
             (lambda k: conj(gt(k, h), odd(k), lt(add(k, 2), n)), lambda k: add(k, 2)),
             (lambda k: conj(gt(k, h), odd(k), eq(add(k, 2), n)), lambda k: add(k, 1)),
             (lambda k: conj(gt(k, h), odd(k), eq(add(k, 1), n)), lambda k: sub(k, 1)),
             (lambda k: conj(gt(k, h), mk_not(odd(k))), lambda k: sub(k, 2))]
    return [eq(vlen(v), n)] + [('case %d' % i, allk(n, (lambda p, f: lambda k: imp(p(k), eq(g(k), f(k))))(p, f), lambda k: [g(k)])) for i, (p, f) in enumerate(cases)]
contract('row::cyclic(int, int, int)', prop='C03', exitghost=lambda c: [emod(c[2], sub(c[0], c[1])), emod(sub(0, c[2]), sub(c[0], c[1]))] + touch(lambda k: (emod(sub(k, c[1]), sub(c[0], c[1])), emod(add(sub(k, c[1]), c[2]), sub(c[0], c[1])))),
         requires=lambda c: [le(0, c[0]), le(c[0], MAXROW), le(0, c[1])],
         ensures=lambda c: vecis(c.result, c[0], lambda k: ite(lt(k, c[1]), k, add(c[1], mod(add(sub(k, c[1]), c[2]), sub(c[0], c[1]))))))

# ---- row queries -------------------------------------------------------------------------
def isr_inv(L):
    for p in L.mints:
        i = L.int(p)
        yield 'sofar %s' % p.name, allk(i, lambda k: eq(vget(L.c.this, k), k), lambda k: [vget(L.c.this, k)])
contract('row::isrounds() const', prop='C03', ensures=lambda c: eq(c.result, eq(c.this, rounds(vlen(c.this)))), inv=[isr_inv])
def find_inv(L):
    if not (len(L.c.pre_args) and isinstance(L.c[0], Term) and L.c[0].sort == 'Int'): return
    for p in L.mints:
        i = L.int(p)
        yield 'notyet %s' % p.name, allk(i, lambda k: ne(vget(L.c.this, k), L.c[0]), lambda k: [vget(L.c.this, k)])
contract('row::find(const bell &) const', prop='C03', exitghost=lambda c: vget(c.this, ipos(c.this, c[0])), ensures=lambda c: eq(c.result, ite(lt(c[0], vlen(c.this)), ipos(c.this, c[0]), c[0])), inv=[find_inv])
contract('row::swap(int, int)', prop='C01', requires=lambda c: [rng(c[0], vlen(c.this)), rng(c[1], vlen(c.this))],
         ensures=lambda c: vecis(c.this1, vlen(c.this), lambda k: vget(c.this, ite(eq(k, c[0]), c[1], ite(eq(k, c[1]), c[0], k)))))
contract('row::swap(row &)', prop='C01', ensures=lambda c: [eq(c.this1, c.post(0) if False else c[0]), eq(c.post(0), c.this)])
contract('row::swap(std::vector<bell> &)', prop='C01', throws=[('ringing::row::invalid', lambda c: mk_not(perm(c[0])))], requires=lambda c: le(vlen(c[0]), MAXROW),
         ensures=lambda c: [eq(c.this1, c[0]), eq(c.post(0), c.this)])
contract('row::resize(int)', prop='C01', requires=lambda c: [le(0, c[0]), le(c[0], MAXROW)], throws=[('ringing::row::invalid', lambda c: conj(lt(c[0], vlen(c.this)), mk_not(perm(stl.vsub(c.this, 0, c[0])))))],
         ensures=lambda c: vecis(c.this1, c[0], lambda k: ext(c.this, k)), inv=[lambda L: resize_inv(L)])
def resize_inv(L):
    for v_ in L.mvecs:
        v = L.vec(v_)
        yield 'ext', allk(vlen(v), lambda k: eq(vget(v, k), ext(L.c.this, k)), lambda k: [vget(v, k)])
        yield 'len', conj(le(vlen(v), L.c[0]))
contract('row::cycle_size(int) const', prop='C04', variant=[lambda L: [('cyc ' + p.name, sub(rcyc(L.c.this, L.c[0]), L.int(p))) for p in L.ints]], requires=lambda c: rng(c[0], vlen(c.this)), ensures=lambda c: eq(c.result, rcyc(c.this, c[0])), inv=[lambda L: cs_inv(L)])
def cs_inv(L):
    c = L.c
    for p in L.ints:
        for q in L.ints:
            if p is not q:
                yield 'it %s %s' % (p.name, q.name), eq(L.int(p), riter(c.this, L.int(q), c[0]))
        yield 'lt %s' % p.name, lt(L.int(p), rcyc(c.this, c[0]))
        yield 'le %s' % p.name, le(L.int(p), rcyc(c.this, c[0]))
        yield 'notyet %s' % p.name, allk(L.int(p), lambda m: ne(riter(c.this, m, c[0]), c[0]), lambda m: [riter(c.this, m, c[0])], lo=1)
        yield 'notyet+1 %s' % p.name, allk(add(L.int(p), 1), lambda m: ne(riter(c.this, m, c[0]), c[0]), lambda m: [riter(c.this, m, c[0])], lo=1)
contract('row::bells() const', prop='C03', noinv=('this',), ensures=lambda c: eq(c.result, vlen(c.this)))
contract('row::operator[](int) const', prop='C03', noinv=('this',), requires=lambda c: rng(c[0], vlen(c.this)), ensures=lambda c: eq(c.result, vget(c.this, c[0])))
contract('row::operator==(const row &) const', prop='C02', ensures=lambda c: eq(c.result, eq(c.this, c[0])))
contract('row::operator!=(const row &) const', prop='C02', ensures=lambda c: eq(c.result, ne(c.this, c[0])))
for o_, f_ in (('<', lambda a, b: stl.lexlt(a, b)), ('>', lambda a, b: stl.lexlt(b, a)), ('<=', lambda a, b: mk_not(stl.lexlt(b, a))), ('>=', lambda a, b: mk_not(stl.lexlt(a, b)))):
    contract('row::operator%s(const row &) const' % o_, prop='C02', ensures=(lambda f: lambda c: eq(c.result, f(c.this, c[0])))(f_))

# ---- cycles --------------------------------------------------------------------------------
SYMS = [ord(x) for x in '1234567890ETABCDFGHJKLMNPQRSUVWYZ']
A('bsym_def', forall(['Int'], lambda b: eq(bsym(b), ite(rng(b, len(SYMS)), select(varr(vlit('Int', SYMS)), b), ord('*'))), pats=lambda b: [[bsym(b)]]), ['bsym'])
contract('bell::to_char() const', prop='C05', ensures=lambda c: eq(c.result, bsym(c.this)))
def cyc_inv(L):
    v = L.c.this; n = vlen(v)
    for p in L.mints:
        i = L.int(p)
        for dn_ in L.vecs:
            d = L.vec(dn_)
            if d.sort != VB: continue
            di = vget(d, i)
            yield 'rng %s' % p.name, rng(i, n)
            yield 'rngle %s' % p.name, conj(le(0, i), le(i, n))
            yield 'len', eq(vlen(d), n)
            fr = ite(conj(lt(i, n), di), add(i, 1), i)
            yield 'done<front %s' % p.name, allk(n, lambda b: eq(vget(d, b), lt(cmin(v, b), fr)), lambda b: [vget(d, b)])
            yield 'done inner %s' % p.name, allk(n, lambda b: eq(vget(d, b), disj(lt(cmin(v, b), cmin(v, i)), conj(eq(cmin(v, b), cmin(v, i)), lt(cidx(v, b), cidx(v, i))))), lambda b: [vget(d, b)])
            yield 'm', mention(cmin(v, i)); yield 'lead %s' % p.name, eq(cmin(v, i), L.int0(p))
            yield 'm2', mention(cidx(v, i))
            for q in L.ints:
                if q is not p:
                    yield 'num %s %s' % (q.name, p.name), eq(L.int(q), nlead(v, fr))
                    yield 'numin %s %s' % (q.name, p.name), eq(L.int(q), nlead(v, cmin(v, i)))
            for r_ in L.vecs:
                r = L.vec(r_)
                if r.sort != VI: continue
                yield 'm3', mention(cyq(v, cmin(v, i), 0)); yield 'm4', mention(cyq(v, cmin(v, i), rcyc(v, cmin(v, i)))); yield 'm5', mention(cyq(v, fr, 0))
                yield 'text %s' % r_[0], eq(r, cyq(v, fr, 0))
                yield 'textin %s' % r_[0], eq(r, cyq(v, cmin(v, i), cidx(v, i)))
            break
def cyc_var(L):
    v = L.c.this; n = vlen(v)
    for p in L.mints:
        i = L.int(p)
        yield 'cidx ' + p.name, sub(rcyc(v, i), add(cidx(v, i), 0))
        yield 'cidx2 ' + p.name, sub(rcyc(v, cmin(v, i)), cidx(v, i))
    for p in L.ints:
        i = L.int(p)
        for dn_ in L.vecs:
            d = L.vec(dn_)
            if d.sort == VB: yield 'front ' + p.name, sub(n, ite(conj(lt(i, n), vget(d, i)), add(i, 1), i))
contract('row::num_cycles() const', prop='C04', variant=[cyc_var], ensures=lambda c: eq(c.result, nlead(c.this, vlen(c.this))), inv=[cyc_inv])
contract('row::cycles() const', prop='C04', variant=[cyc_var], ensures=lambda c: [eq(c.result, ite(eq(vlen(c.this), 0), vempty('Int'), vpop(cyq(c.this, vlen(c.this), 0))))], inv=[cyc_inv])
contract('row::sign() const', prop='C04', ensures=lambda c: eq(c.result, ite(eq(mod(sub(vlen(c.this), nlead(c.this, vlen(c.this))), 2), 0), 1, -1)))
INTMAX = 2**31 - 1
contract('hcf(int, int)', prop='C19', requires=lambda c: [ge(c[0], 0), ge(c[1], 0)], ensures=lambda c: eq(c.result, zgcd(c[0], c[1])),
         inv=[lambda L: gcd_inv(L)])
def gcd_inv(L):
    ps = [p for p in L.ints]
    for p in ps:
        for q in ps:
            if p is not q: yield 'gcd %s %s' % (p.name, q.name), eq(zgcd(L.int(p), L.int(q)), zgcd(L.c[0], L.c[1]))
contract('lcm(int, int)', prop='C19', requires=lambda c: [ge(c[0], 0), ge(c[1], 0), le(zlcm(c[0], c[1]), INTMAX)], ensures=lambda c: eq(c.result, zlcm(c[0], c[1])))
def order_inv(L):
    v = L.c.this; end = sub(vlen(cyt(v)), 1)
    ptrs = [p for p in L.ints if p.kind == 'ptr']
    for p in ptrs:
        for q in ptrs:
            if p is q: continue
            i, j = L.int(p), L.int(q)
            yield 'm %s' % p.name, mention(clead(v, i)); yield 'm1 %s' % p.name, mention(clead(v, add(i, 1))); yield 'm2 %s' % p.name, mention(olcm(v, add(clead(v, i), 1))); yield 'm3', mention(clead(v, end))
            yield 'm4 %s' % p.name, mention(olcm(v, clead(v, i)))
            yield 'seg %s %s' % (p.name, q.name), conj(le(0, i), le(i, j), le(j, end), eq(coff(v, i), 0), eq(clead(v, j), clead(v, i)), eq(coff(v, j), sub(j, i)))
            for o in L.ints:
                if o.kind == 'ptr': continue
                yield 'lcm %s %s %s' % (p.name, q.name, o.name), disj(conj(eq(j, end), eq(L.int(o), rorder(v))), conj(eq(i, j), rng(j, end), eq(coff(v, i), 0), eq(L.int(o), olcm(v, clead(v, i)))))
                yield 'lcmi %s %s' % (p.name, o.name), eq(L.int(o), olcm(v, clead(v, i)))
contract('row::order() const', prop='C04', requires=lambda c: le(rorder(c.this), INTMAX), ensures=lambda c: eq(c.result, rorder(c.this)), inv=[order_inv])
# ---- bell symbols ------------------------------------------------------------------------------
upper = lambda c: ite(conj(le(97, c), le(c, 122)), sub(c, 32), c)
def bval(c):
    """the bell a character stands for, or -1"""
    u = upper(c); r = num(-1)
    for i, s in list(enumerate(SYMS)) + [(0, ord('I')), (9, ord('O'))]: r = ite(eq(u, s), i, r)
    return r
contract('bell::is_symbol(char)', prop='C05', ensures=lambda c: eq(c.result, ge(bval(c[0]), 0)))
contract('bell::read_char(char)', prop='C05', decreases=lambda c: ite(disj(*[eq(upper(c[0]), x) for x in SYMS]), 0, 1), throws=[('ringing::bell::invalid', lambda c: lt(bval(c[0]), 0))], ensures=lambda c: eq(c.result, bval(c[0])))
contract('bell::from_char(char)', prop='C05', throws=[('ringing::bell::invalid', lambda c: lt(bval(c[0]), 0))], ensures=lambda c: eq(c.this1, bval(c[0])))
def fact_inv(L):
    for p in L.mints:
        for q in L.mints:
            if p is not q:
                yield 'fall %s %s' % (p.name, q.name), imp(le(L.c[0], 12), eq(L.int(p), zfall(L.c[0], L.int(q))))
                yield 'm %s' % p.name, mention(zfall(L.c[0], sub(L.int(p), 1)))
        yield 'm %s' % p.name, mention(zfall(L.c[0], L.int(p)))
        yield 'le %s' % p.name, le(L.int(p), L.c[0])
contract('factorial(unsigned int)', prop='C19', ensures=lambda c: imp(le(c[0], 12), eq(c.result, zfact(c[0]))), inv=[fact_inv], exitghost=lambda c: [zfall(c[0], 1)])
def fib_inv(L):
    for p in L.mints:
        k = sub(L.c[0], L.int(p))
        yield 'm %s' % p.name, mention(zfib(k)); yield 'm1 %s' % p.name, mention(zfib(add(k, 1))); yield 'm2 %s' % p.name, mention(zfib(add(k, 2)))
        yield 'le %s' % p.name, le(L.int(p), L.c[0])
        for q in L.mints:
            if p is q: continue
            yield 'fib %s %s' % (p.name, q.name), imp(le(L.c[0], 46), eq(L.int(q), zfib(k)))
            yield 'fib+1 %s %s' % (p.name, q.name), imp(le(L.c[0], 46), eq(L.int(q), zfib(add(k, 1))))
contract('fibonacci(unsigned int)', prop='C19', ensures=lambda c: imp(le(c[0], 46), eq(c.result, zfib(c[0]))), inv=[fib_inv])
absle = lambda t, m: conj(le(t, m), le(sub(0, m), t))
contract('ipower(int, int)', prop='C19', decreases=lambda c: c[1], requires=lambda c: imp(ge(c[1], 0), absle(zpow(c[0], c[1]), 2**63 - 1)), ensures=lambda c: eq(c.result, ite(lt(c[1], 0), 0, zpow(c[0], c[1]))),
         ghost=lambda c: [zpow(c[0], c[1]), zpow(c[0], sub(c[1], 1)), zpow(c[0], div(c[1], 2)), zpow(c[0], 0)])
contract('sign(int)', prop='C19', ensures=lambda c: eq(c.result, ite(gt(c[0], 0), 1, ite(lt(c[0], 0), -1, 0))))
# ---- which plain bob lead head: the least power ------------------------------------------------
pbrow = declare('pbrow', ('Int', 'Int'), VI)
A('pbrow_len', forall(II, lambda n, h: imp(ge(n, 0), eq(vlen(pbrow(n, h)), n)), pats=lambda n, h: [[pbrow(n, h)]]), ['pbrow'])
def _pbget(n, h, k):
    x = vget(pbrow(n, h), k); odd = eq(mod(sub(k, h), 2), 1)
    return eq(x, ite(mk_not(rng(k, n)), 0, ite(lt(k, h), k, ite(eq(k, h), ite(lt(add(h, 1), n), add(h, 1), h),
        ite(odd, ite(lt(add(k, 2), n), add(k, 2), ite(eq(add(k, 2), n), add(k, 1), sub(k, 1))), sub(k, 2))))))
A('pbrow_get', forall(['Int'] * 3, lambda n, h, k: imp(conj(ge(n, 0), ge(h, 0)), _pbget(n, h, k)), pats=lambda n, h, k: [[vget(pbrow(n, h), k)]]), ['pbrow'])
_old = C_['row::pblh(int, int)'].ensures
C_['row::pblh(int, int)'].ensures = lambda c: _old(c) + [('is pbrow', eq(c.result, pbrow(c[0], c[1])))]
def isleast(r, lim, hit, pat):
    """r is the least i in 1..lim-1 with hit(i), or 0"""
    return conj(disj(conj(eq(r, 0), allk(lim, lambda i: mk_not(hit(i)), pat, lo=1)), conj(le(1, r), lt(r, lim), hit(r), allk(r, lambda i: mk_not(hit(i)), pat, lo=1))))
pbis = lambda c, h: ((lambda i: eq(c.this, rpow(pbrow(vlen(c.this), h), i))), (lambda i: [rpow(pbrow(vlen(c.this), h), i)]))
def pblh_ind(L):
    c = L.c; hit, pat = pbis(c, c[0])
    for p in L.mints:
        i = L.int(p)
        for v_ in L.mvecs:
            v = L.vec(v_)
            yield 'pow %s' % p.name, eq(v, rpow(pbrow(vlen(c.this), c[0]), i))
        yield 'none %s' % p.name, allk(i, lambda m: mk_not(hit(m)), pat, lo=1)
contract('row::ispblh(int) const', prop='C03', requires=lambda c: [le(0, c[0]), le(c[0], vlen(c.this)), le(vlen(c.this), MAXCH)], ensures=lambda c: isleast(c.result, sub(vlen(c.this), c[0]), *pbis(c, c[0])), inv=[pblh_ind])
# the number of bells at home at the front
nhome = declare('nhome', (VI,), 'Int')
A('nhome_def', forall([VI], lambda v: imp(nn(v), conj(le(0, nhome(v)), le(nhome(v), vlen(v)), imp(lt(nhome(v), vlen(v)), ne(vget(v, nhome(v)), nhome(v))))), pats=lambda v: [[nhome(v)]]), ['nhome'])
A('nhome_lt', forall([VI, 'Int'], lambda v, k: imp(conj(nn(v), le(0, k), lt(k, nhome(v))), eq(vget(v, k), k)), pats=lambda v, k: [[nhome(v), vget(v, k)]]), ['nhome'])
def nhome_inv(L):
    for p in L.mints:
        yield 'le %s' % p.name, conj(le(0, L.int(p)), le(L.int(p), nhome(L.c.this)))
contract('row::ispblh() const', prop='C03', requires=lambda c: le(vlen(c.this), MAXCH), inv=[nhome_inv],
         ensures=lambda c: ite(eq(vlen(c.this), 0), eq(c.result, 1), ite(eq(nhome(c.this), 0), eq(c.result, 0), isleast(c.result, sub(vlen(c.this), nhome(c.this)), *pbis(c, nhome(c.this))))))
contract('change::operator==(const change &) const', prop='C06', ensures=lambda c: eq(c.result, eq(c.this, c[0])), exitghost=lambda c: [vget(SW(c), 0), vget(swaps_of(c[0]), 0)])
contract('change::operator!=(const change &) const', prop='C06', ensures=lambda c: eq(c.result, ne(c.this, c[0])))
# the reverse of a change: position i of one is position n-1-i of the other
rvs = declare('rvs', (VI, 'Int'), VI)
A('rvs_len', forall([VI, 'Int'], lambda s, n: imp(nn(s), eq(vlen(rvs(s, n)), vlen(s))), pats=lambda s, n: [[rvs(s, n)]]), ['rvs'])
A('rvs_get', forall([VI, 'Int', 'Int'], lambda s, n, k: imp(nn(s), eq(vget(rvs(s, n), k), ite(rng(k, vlen(s)), sub(sub(n, 2), vget(s, sub(sub(vlen(s), 1), k))), 0))), pats=lambda s, n, k: [[vget(rvs(s, n), k)]]), ['rvs'])
def rv_inv(L):
    c = L.c; s = SW(c); n = n_of(c.this)
    for v_ in L.mvecs:
        v = L.vec(v_)
        if v.sort != VI: continue
        yield 'len %s' % v_[0], le(vlen(v), vlen(s))
        yield 'mirrored %s' % v_[0], allk(vlen(v), lambda k: eq(vget(v, k), vget(rvs(s, n), k)), lambda k: [vget(v, k)])
        for p in L.mints:
            if p.kind == 'ptr':
                yield 'it %s' % p.name, eq(vlen(v), L.int(p)); yield 'it- %s' % p.name, eq(vlen(v), sub(vlen(s), L.int(p)))
contract('change::reverse() const', prop='C06', ensures=lambda c: [eq(n_of(c.result), n_of(c.this)), eq(swaps_of(c.result), rvs(SW(c), n_of(c.this)))], inv=[rv_inv])
