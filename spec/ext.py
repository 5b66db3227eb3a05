"""Contracts for extents (C13)."""
from .core import *
U64 = 2**64
TU = ['ringing/extent.cpp']
F20 = 2432902008176640000
EI = 'extent_iterator'
nw = lambda x: recget(x, 'nw'); nh = lambda x: recget(x, 'nh'); nt = lambda x: recget(x, 'nt'); er = lambda x: recget(x, 'r'); ended = lambda x: recget(x, 'end_')
# ---- factorials that fit in 64 bits --------------------------------------------------------------
A('zfact_big', forall(['Int'], lambda n: conj(imp(ge(n, 21), ge(zfact(n), U64)), imp(conj(ge(n, 0), le(n, 20)), conj(ge(zfact(n), 1), le(zfact(n), F20)))), pats=lambda n: [[zfact(n)]]), ['zfact'])
A('zfall_le', forall(II, lambda n, k: imp(conj(le(1, k), le(k, n)), conj(ge(zfall(n, k), 1), le(zfall(n, k), zfact(n)))), pats=lambda n, k: [[zfall(n, k), zfact(n)]]), ['zfall', 'zfact'])
sizefact = lambda n: ite(le(n, 20), zfact(n), 0)
def sf_inv(L):
    c = L.c
    if not len(c.pre_args): return
    n0 = c[0]
    for p in L.mints:
        k = L.int(p)
        yield 'm %s' % p.name, mention(zfall(n0, k)); yield 'le %s' % p.name, le(k, n0); yield 'pos %s' % p.name, imp(ge(n0, 1), ge(k, 1))
        for q in L.mints:
            if p is not q: yield 'fall %s %s' % (p.name, q.name), ite(eq(k, n0), eq(L.int(q), 1), eq(L.int(q), zfall(n0, add(k, 1))))
contract('size_factorial(unsigned int)', prop='C13', ensures=lambda c: eq(c.result, sizefact(c[0])), inv=[sf_inv], exitghost=lambda c: [zfact(c[0]), zfall(c[0], 1), zfall(c[0], 2)])
contract('extent::size() const', prop='C13', ensures=lambda c: eq(c.result, sizefact(nw(c.this))))
# ---- position of a row ---------------------------------------------------------------------------
# cles(v,i,j): how many of the places i+1..j-1 hold a bell below the one in place i
cles = declare('cles', (VI, 'Int', 'Int'), 'Int')
lehr = declare('lehr', (VI, 'Int', 'Int', 'Int'), 'Int')     # lehr(v,a,e,i): the number of the row among those of places a..e-1, counting up to place i
A('cles_0', forall([VI] + II, lambda v, i, j: imp(eq(j, add(i, 1)), eq(cles(v, i, j), 0)), pats=lambda v, i, j: [[cles(v, i, j)]]), ['cles'])
A('cles_s', forall([VI] + ['Int'] * 3, lambda v, i, j, k: imp(conj(lt(i, j), eq(k, add(j, 1))), eq(cles(v, i, k), add(cles(v, i, j), ite(conj(lt(j, vlen(v)), lt(vget(v, j), vget(v, i))), 1, 0)))), pats=lambda v, i, j, k: [[cles(v, i, j), cles(v, i, k)]]), ['cles'])
A('cles_rng', forall([VI] + II, lambda v, i, j: imp(lt(i, j), conj(le(0, cles(v, i, j)), lt(cles(v, i, j), sub(j, i)))), pats=lambda v, i, j: [[cles(v, i, j)]]), ['cles'])
A('lehr_0', forall([VI] + II, lambda v, a, e: eq(lehr(v, a, e, a), 0), pats=lambda v, a, e: [[lehr(v, a, e, a)]]), ['lehr'])
A('lehr_s', forall([VI] + ['Int'] * 4, lambda v, a, e, i, k: imp(conj(le(a, i), lt(i, e), eq(k, add(i, 1))), eq(lehr(v, a, e, k), add(mul(lehr(v, a, e, i), sub(e, i)), cles(v, i, e)))), pats=lambda v, a, e, i, k: [[lehr(v, a, e, i), lehr(v, a, e, k)]]), ['lehr'])
A('lehr_rng', forall([VI] + ['Int'] * 3, lambda v, a, e, i: imp(conj(le(a, i), le(i, e), le(e, add(a, 20))), conj(le(0, lehr(v, a, e, i)), le(lehr(v, a, e, i), F20 - 1), imp(lt(i, e), conj(le(0, mul(lehr(v, a, e, i), sub(e, i))), le(mul(lehr(v, a, e, i), sub(e, i)), F20 - 1))))), pats=lambda v, a, e, i: [[lehr(v, a, e, i)]]), ['lehr'])
A('lehr_fact', forall([VI] + II, lambda v, a, e: imp(conj(le(a, e)), conj(le(0, lehr(v, a, e, e)), lt(lehr(v, a, e, e), zfact(sub(e, a))))), pats=lambda v, a, e: [[lehr(v, a, e, e), zfact(sub(e, a))]]), ['lehr', 'zfact'])
def home(v, a, b): return allk(b, lambda k: imp(lt(k, vlen(v)), eq(vget(v, k), k)), lambda k: [vget(v, k)], lo=a)
def pie_inv(L):
    c = L.c
    if not len(c.pre_args) or not isinstance(c[0], Term) or c[0].sort != VI: return
    v = c[0]; a = c[2]; e = add(c[1], c[2])
    for p in L.mints:
        k = L.int(p)
        yield 'hunts %s' % p.name, home(v, 0, k)
        yield 'tenors %s' % p.name, home(v, e, k)
        yield 'm %s' % p.name, mention(lehr(v, a, e, add(k, 1)))
        yield 'end %s' % p.name, le(k, e)
        for q in L.mints:
            if p is q: continue
            yield 'rank %s %s' % (q.name, p.name), eq(L.int(q), lehr(v, a, e, k))
        for i in L.ints:
            if i.name == p.name: continue
            ii = L.int(i)
            yield 'mc %s %s' % (p.name, i.name), mention(cles(v, ii, add(k, 1)))
            for q in L.mints:
                if q is not p and q.name != i.name: yield 'count %s %s %s' % (q.name, p.name, i.name), eq(L.int(q), add(mul(lehr(v, a, e, ii), sub(e, ii)), cles(v, ii, k)))
fixes = lambda v, w, h, t: conj(le(vlen(v), t), home(v, 0, h), home(v, add(h, w), t))
PIE = 'position_in_extent(const row &, unsigned int, unsigned int, unsigned int)'
contract(PIE, prop='C13', requires=lambda c: [le(c[1], 20), le(add(c[1], c[2]), c[3]), le(c[3], MAXROW)],
    throws=[('std::out_of_range', lambda c: mk_not(fixes(c[0], c[1], c[2], c[3])))], ensures=lambda c: [eq(c.result, lehr(c[0], c[2], add(c[1], c[2]), add(c[1], c[2]))), lt(c.result, zfact(c[1]))], inv=[pie_inv])
for k_, w_, h_, t_ in (('position_in_extent(const row &, unsigned int, unsigned int)', lambda c: c[1], lambda c: c[2], lambda c: add(c[1], c[2])), ('position_in_extent(const row &)', lambda c: vlen(c[0]), lambda c: num(0), lambda c: vlen(c[0]))):
    (lambda w, h, t: contract(k_, prop='C13', requires=lambda c: [le(w(c), 20), le(t(c), MAXROW)], throws=[('std::out_of_range', lambda c: mk_not(fixes(c[0], w(c), h(c), t(c))))], ensures=lambda c: eq(c.result, lehr(c[0], h(c), add(w(c), h(c)), add(w(c), h(c))))))(w_, h_, t_)
for k_, w_, h_, t_ in (('position_in_incourse_extent(const row &, unsigned int, unsigned int, unsigned int)', lambda c: c[1], lambda c: c[2], lambda c: c[3]), ('position_in_incourse_extent(const row &, unsigned int, unsigned int)', lambda c: c[1], lambda c: c[2], lambda c: add(c[1], c[2])), ('position_in_incourse_extent(const row &)', lambda c: vlen(c[0]), lambda c: num(0), lambda c: vlen(c[0]))):
    (lambda w, h, t: contract(k_, prop='C13', requires=lambda c: [le(w(c), 20), le(t(c), MAXROW), le(add(w(c), h(c)), t(c))], throws=[('std::out_of_range', lambda c: mk_not(fixes(c[0], w(c), h(c), t(c))))], ensures=lambda c: eq(c.result, div(lehr(c[0], h(c), add(w(c), h(c)), add(w(c), h(c))), 2))))(w_, h_, t_)
contract('extent::operator[](row) const', prop='C13', requires=lambda c: [le(nw(c.this), 20), le(add(nw(c.this), nh(c.this)), nt(c.this)), le(nt(c.this), MAXROW)],
    throws=[('std::out_of_range', lambda c: mk_not(fixes(c[0], nw(c.this), nh(c.this), nt(c.this))))], ensures=lambda c: eq(c.result, lehr(c[0], nh(c.this), add(nw(c.this), nh(c.this)), add(nw(c.this), nh(c.this)))))
# ---- sign of the nth row: the parity of the sum of the factorial-base digits of n ----------------
fsgn = declare('fsgn', ('Int', 'Int'), 'Int')
A('fsgn_0', forall(['Int'], lambda i: eq(fsgn(0, i), 1), pats=lambda i: [[fsgn(0, i)]]), ['fsgn'])
A('fsgn_s', forall(['Int'] * 4, lambda n, i, m, j: imp(conj(gt(n, 0), ge(i, 1), eq(m, ediv(n, i)), eq(j, add(i, 1))), eq(fsgn(n, i), ite(eq(mod(emod(n, i), 2), 0), fsgn(m, j), sub(0, fsgn(m, j))))), pats=lambda n, i, m, j: [[fsgn(n, i), fsgn(m, j)]]), ['fsgn'])
A('fsgn_rng', forall(II, lambda n, i: disj(eq(fsgn(n, i), 1), eq(fsgn(n, i), -1)), pats=lambda n, i: [[fsgn(n, i)]]), ['fsgn'])
# after a few divisors nothing is left of a 64-bit number
fleft = declare('fleft', ('Int', 'Int'), 'Int')
A('fleft_1', forall(['Int'], lambda n: eq(fleft(n, 1), n), pats=lambda n: [[fleft(n, 1)]]), ['fleft'])
A('fleft_s', forall(['Int'] * 3, lambda n, i, j: imp(conj(ge(i, 1), ge(n, 0), eq(j, add(i, 1))), eq(fleft(n, j), ediv(fleft(n, i), i))), pats=lambda n, i, j: [[fleft(n, i), fleft(n, j)]]), ['fleft'])
A('fleft_z', forall(II, lambda n, i: imp(conj(ge(n, 0), ge(i, 1)), conj(ge(fleft(n, i), 0), imp(conj(ge(i, 22), lt(n, U64)), eq(fleft(n, i), 0)))), pats=lambda n, i: [[fleft(n, i)]]), ['fleft'])
def sg_inv(L):
    c = L.c
    if not len(c.pre_args): return
    n0 = c[0]
    for i in L.mints:
        ii = L.int(i)
        yield 'ge1 %s' % i.name, ge(ii, 1); yield 'le22 %s' % i.name, le(ii, 22)
        yield 'm %s' % i.name, mention(fleft(n0, ii)); yield 'm2 %s' % i.name, mention(fleft(n0, add(ii, 1)))
        for n in L.ints:
            if n is i: continue
            nn_ = L.int(n)
            yield 'left %s %s' % (n.name, i.name), eq(nn_, fleft(n0, ii))
            yield 'mf %s %s' % (n.name, i.name), mention(fsgn(nn_, ii)); yield 'mf2 %s %s' % (n.name, i.name), mention(fsgn(ediv(nn_, ii), add(ii, 1)))
            for s in L.mints:
                if s is i or s is n: continue
                yield 'sign %s %s %s' % (s.name, n.name, i.name), eq(fsgn(n0, 1), ite(eq(L.int(s), 1), fsgn(nn_, ii), sub(0, fsgn(nn_, ii))))
    for s in L.mints: yield 'pm %s' % s.name, disj(eq(L.int(s), 1), eq(L.int(s), -1))
contract('sign_of_nth_row_of_extent(unsigned long)', prop='C13', variant=[lambda L: [('v ' + p.name, sub(23, L.int(p))) for p in L.mints]], ensures=lambda c: eq(c.result, fsgn(c[0], 1)), inv=[sg_inv])
# ---- the iterators ---------------------------------------------------------------------------------
def wf(x): return [le(add(nw(x), nh(x)), nt(x)), le(nt(x), MAXROW), disj(ended(x), eq(vlen(er(x)), nt(x)))]
INV['extent_iterator'] = lambda x: []
contract('extent_iterator::extent_iterator()', prop='C13', ensures=lambda c: ended(c.this1))
def mk_its(key, t):
    contract(key, prop='C13', requires=lambda c: [le(t(c), MAXROW), le(add(c[0], c[1]), t(c))], ensures=lambda c: [eq(nw(c.this1), c[0]), eq(nh(c.this1), c[1]), eq(nt(c.this1), t(c)), mk_not(ended(c.this1)), eq(er(c.this1), rounds(t(c)))])
mk_its('extent_iterator::extent_iterator(unsigned int, unsigned int, unsigned int)', lambda c: c[2])
mk_its('extent_iterator::extent_iterator(unsigned int, unsigned int)', lambda c: add(c[0], c[1]))
ieq = lambda a, b: conj(eq(ended(a), ended(b)), disj(ended(a), eq(er(a), er(b))))
contract('extent_iterator::operator==(const extent_iterator &) const', prop='C13', alias=[0], ensures=lambda c: eq(c.result, ieq(c.this, c[0])))
contract('extent_iterator::operator!=(const extent_iterator &) const', prop='C13', alias=[0], ensures=lambda c: eq(c.result, mk_not(ieq(c.this, c[0]))))
ilt = lambda a, b: ite(ended(b), mk_not(ended(a)), conj(mk_not(ended(a)), stl.lexlt(er(a), er(b))))
contract('extent_iterator::operator<(const extent_iterator &) const', prop='C13', alias=[0], ensures=lambda c: eq(c.result, ilt(c.this, c[0])))
contract('extent_iterator::operator>(const extent_iterator &) const', prop='C13', alias=[0], ensures=lambda c: eq(c.result, ilt(c[0], c.this)))
contract('extent_iterator::operator<=(const extent_iterator &) const', prop='C13', alias=[0], ensures=lambda c: eq(c.result, mk_not(ilt(c[0], c.this))))
contract('extent_iterator::operator>=(const extent_iterator &) const', prop='C13', alias=[0], ensures=lambda c: eq(c.result, mk_not(ilt(c.this, c[0]))))
contract('extent_iterator::is_end() const', prop='C13', ensures=lambda c: eq(c.result, ended(c.this)))
for k_, t_ in (('unsigned int, unsigned int, unsigned int', lambda c: c[2]), ('unsigned int, unsigned int', lambda c: add(c[0], c[1]))):
    (lambda t: contract('extent_iterator::end(%s)' % k_, prop='C13', requires=lambda c: [le(t(c), MAXROW), le(add(c[0], c[1]), t(c))], ensures=lambda c: [ended(c.result), eq(nw(c.result), c[0]), eq(nh(c.result), c[1]), eq(nt(c.result), t(c))]))(t_)
for k_, t_ in (('unsigned int, unsigned int, unsigned int', lambda c: c[2]), ('unsigned int, unsigned int', lambda c: add(c[0], c[1]))):
    (lambda t: contract('extent::extent(%s)' % k_, prop='C13', ensures=lambda c: [eq(nw(c.this1), c[0]), eq(nh(c.this1), c[1]), eq(nt(c.this1), mod(t(c), 2**32))]))(t_)
same = lambda c: [eq(nw(c.result), nw(c.this)), eq(nh(c.result), nh(c.this)), eq(nt(c.result), nt(c.this))]
xok = lambda c: [le(nt(c.this), MAXROW), le(add(nw(c.this), nh(c.this)), nt(c.this))]
contract('extent::begin() const', prop='C13', requires=xok, ensures=lambda c: [mk_not(ended(c.result)), eq(er(c.result), rounds(nt(c.this)))] + same(c))
contract('extent::end() const', prop='C13', requires=xok, ensures=lambda c: [ended(c.result)] + same(c))
for f_, l_ in ((stl.npm, 'npm'), (stl.ppm, 'ppm')):
    (lambda f: (A(l_ + '_len', forall([VI] + II, lambda v, i, j: eq(vlen(f(v, i, j)), vlen(v)), pats=lambda v, i, j: [[f(v, i, j)]]), [l_]),
      A(l_ + '_out', forall([VI] + ['Int'] * 3, lambda v, i, j, k: imp(disj(lt(k, i), ge(k, j)), eq(vget(f(v, i, j), k), vget(v, k))), pats=lambda v, i, j, k: [[vget(f(v, i, j), k)]]), [l_]),
      A(l_ + '_perm', forall([VI] + II, lambda v, i, j: imp(conj(perm(v), le(0, i), le(i, j), le(j, vlen(v))), perm(f(v, i, j))), pats=lambda v, i, j: [[f(v, i, j)]]), [l_, 'perm'])))(f_)
win = lambda c: (er(c.this), nh(c.this), add(nh(c.this), nw(c.this)))
keepn = lambda c: [eq(nw(c.this1), nw(c.this)), eq(nh(c.this1), nh(c.this)), eq(nt(c.this1), nt(c.this))]
iok = lambda c: wf(c.this)
pp_post = lambda c: [eq(ended(c.this1), stl.npend(*win(c))), imp(mk_not(ended(c.this1)), eq(er(c.this1), stl.npm(*win(c))))] + keepn(c) + wf(c.this1)
contract('extent_iterator::operator++()', prop='C13', requires=lambda c: wf(c.this) + [mk_not(ended(c.this))], ensures=pp_post)
contract('extent_iterator::operator++(int)', prop='C13', requires=lambda c: wf(c.this) + [mk_not(ended(c.this))], ensures=lambda c: [eq(c.result, c.this)] + pp_post(c))
backr = lambda w, h, k: ite(conj(le(h, k), lt(k, add(h, w))), sub(add(scale(2, h), sub(w, 1)), k), k)
mm_post = lambda c: [mk_not(ended(c.this1)), imp(mk_not(ended(c.this)), imp(mk_not(stl.ppend(*win(c))), eq(er(c.this1), stl.ppm(*win(c))))),
    imp(ended(c.this), conj(eq(vlen(er(c.this1)), nt(c.this)), allk(nt(c.this), lambda k: eq(vget(er(c.this1), k), backr(nw(c.this), nh(c.this), k)), lambda k: [vget(er(c.this1), k)])))] + keepn(c) + wf(c.this1)
def mm_inv(L):
    c = L.c
    w, h = nw(c.this), nh(c.this)
    for p in L.mints:
        k = L.int(p)
        for v_ in L.mvecs:
            v = L.vec(v_)
            if v.sort == VI: yield 'upto %s %s' % (v_[0], p.name), allk(k, lambda j: eq(vget(v, j), backr(w, h, j)), lambda j: [vget(v, j)]); yield 'len %s' % v_[0], eq(vlen(v), nt(c.this))
        yield 'le %s' % p.name, conj(le(k, nt(c.this)))
        yield 'lew %s' % p.name, conj(le(k, add(w, h)))
        yield 'leh %s' % p.name, conj(le(k, h)); yield 'geh %s' % p.name, le(h, k); yield 'gew %s' % p.name, le(add(w, h), k)
mm_req = lambda c: wf(c.this) + [imp(mk_not(ended(c.this)), mk_not(stl.ppend(*win(c))))]
contract('extent_iterator::operator--()', prop='C13', requires=mm_req, ensures=mm_post, inv=[mm_inv])
contract('extent_iterator::operator--(int)', prop='C13', requires=mm_req, ensures=lambda c: [eq(c.result, c.this)] + mm_post(c))
# ---- the nth row -----------------------------------------------------------------------------------
cu = declare('cu', (VI, 'Int', 'Int', 'Int'), 'Int')          # how many of the places h..i-1 hold a bell below x
inr = declare('inr', (VI, 'Int', 'Int', 'Int'), 'Bool'); inrw = declare('inrw', (VI, 'Int', 'Int', 'Int'), 'Int')
dist = declare('dist', (VI, 'Int', 'Int'), 'Bool')
V3 = [VI] + ['Int'] * 3
A('cu_0', forall([VI] + II, lambda v, h, x: eq(cu(v, h, h, x), 0), pats=lambda v, h, x: [[cu(v, h, h, x)]]), ['cu'])
A('cu_rng', forall(V3, lambda v, h, i, x: imp(le(h, i), conj(le(0, cu(v, h, i, x)), le(cu(v, h, i, x), sub(i, h)))), pats=lambda v, h, i, x: [[cu(v, h, i, x)]]), ['cu'])
A('cu_x', forall(V3 + ['Int'], lambda v, h, i, x, y: imp(conj(dist(v, h, i), eq(y, add(x, 1))), eq(cu(v, h, i, y), add(cu(v, h, i, x), ite(inr(v, h, i, x), 1, 0)))), pats=lambda v, h, i, x, y: [[cu(v, h, i, x), cu(v, h, i, y)]]), ['cu', 'inr'])
A('cu_low', forall([VI] + II, lambda v, h, i: disj(eq(cu(v, h, i, h), 0), exists(1, lambda j: conj(le(h, j), lt(j, i), lt(vget(v, j), h)))), pats=lambda v, h, i: [[cu(v, h, i, h)]]), ['cu'])
A('inr_elim', forall(V3, lambda v, h, i, x: imp(inr(v, h, i, x), conj(le(h, inrw(v, h, i, x)), lt(inrw(v, h, i, x), i), eq(vget(v, inrw(v, h, i, x)), x))), pats=lambda v, h, i, x: [[inr(v, h, i, x)]]), ['inr'])
A('inr_intro', forall(V3 + ['Int'], lambda v, h, i, x, j: imp(conj(le(h, j), lt(j, i), eq(vget(v, j), x)), inr(v, h, i, x)), pats=lambda v, h, i, x, j: [[inr(v, h, i, x), vget(v, j)]]), ['inr'])
A('dist_elim', forall([VI] + ['Int'] * 4, lambda v, h, i, j, k: imp(conj(dist(v, h, i), le(h, j), lt(j, k), lt(k, i)), ne(vget(v, j), vget(v, k))), pats=lambda v, h, i, j, k: [[dist(v, h, i), vget(v, j), vget(v, k)]]), ['dist'])
A('dist_intro', forall([VI] + II, lambda v, h, i: disj(dist(v, h, i), exists(2, lambda j, k: conj(le(h, j), lt(j, k), lt(k, i), eq(vget(v, j), vget(v, k))))), pats=lambda v, h, i: [[dist(v, h, i)]]), ['dist'])
A('cu_upd', forall(['Int', AI] + ['Int'] * 5, lambda n, a, p, y, h, i, x: imp(conj(le(i, p)), eq(cu(mkvec(n, store(a, p, y)), h, i, x), cu(mkvec(n, a), h, i, x))), pats=lambda n, a, p, y, h, i, x: [[cu(mkvec(n, store(a, p, y)), h, i, x)]]), ['cu'])
A('cles_cu', forall([VI] + ['Int'] * 3, lambda v, h, e, k: imp(conj(perm(v), le(0, h), le(h, k), lt(k, e), le(e, vlen(v)), home(v, 0, h), home(v, e, vlen(v))), eq(cles(v, k, e), sub(sub(vget(v, k), h), cu(v, h, k, vget(v, k))))), pats=lambda v, h, e, k: [[cles(v, k, e), lehr(v, h, e, e), perm(v)]]), ['cles', 'cu'])
nrem = declare('nrem', ('Int', 'Int', 'Int'), 'Int')          # n mod (e-i)!
A('nrem_0', forall(['Int'] * 3, lambda n, e, i: imp(conj(le(0, n), lt(n, zfact(sub(e, i)))), eq(nrem(n, e, i), n)), pats=lambda n, e, i: [[nrem(n, e, i)]]), ['nrem'])
A('nrem_s', forall(['Int'] * 5, lambda n, e, i, j, f: imp(conj(le(0, n), lt(i, e), eq(j, add(i, 1)), eq(f, zfact(sub(sub(e, i), 1)))), conj(eq(nrem(n, e, j), emod(nrem(n, e, i), f)), le(0, ediv(nrem(n, e, i), f)), lt(ediv(nrem(n, e, i), f), sub(e, i)))), pats=lambda n, e, i, j, f: [[nrem(n, e, i), nrem(n, e, j), ediv(nrem(n, e, i), f)], [nrem(n, e, i), nrem(n, e, j), emod(nrem(n, e, i), f)]]), ['nrem'])
A('nrem_rng', forall(['Int'] * 3, lambda n, e, i: imp(conj(le(0, n), le(i, e)), conj(le(0, nrem(n, e, i)), le(nrem(n, e, i), n), lt(nrem(n, e, i), zfact(sub(e, i))))), pats=lambda n, e, i: [[nrem(n, e, i)]]), ['nrem'])
dig = lambda n, e, i: ediv(nrem(n, e, i), zfact(sub(sub(e, i), 1)))
A('lehr_digits', forall([VI] + ['Int'] * 3, lambda v, h, e, n: imp(conj(le(h, e), le(0, n), lt(n, zfact(sub(e, h)))), disj(eq(lehr(v, h, e, e), n), exists(1, lambda k: conj(le(h, k), lt(k, e), ne(cles(v, k, e), dig(n, e, k)))))), pats=lambda v, h, e, n: [[mention(lehr(v, h, e, e)), mention(n)]]), ['lehr', 'nrem'])
def nth_inv(L):
    c = L.c
    if len(c.pre_args) < 4: return
    n0, w, h, t = c[0], c[1], c[2], c[3]; e = add(w, h)
    INTS = [p for p in L.ints if p in L.mints or not any(L.int(p) is x for x in c.pre_args)]
    for v_ in L.vecs:
        v = L.vec(v_)
        if v.sort != VI: continue
        for i in INTS:
            ii = L.int(i)
            if v_ in L.mvecs and i in L.mints:
                yield 'len %s' % v_[0], eq(vlen(v), t)
                yield 'home %s' % i.name, allk(ii, lambda k: imp(lt(k, h), eq(vget(v, k), k)), lambda k: [vget(v, k)])
                yield 'tenors %s' % i.name, allk(ii, lambda k: eq(vget(v, k), k), lambda k: [vget(v, k)], lo=e)
                yield 'rng %s' % i.name, imp(ge(ii, h), allk(ii, lambda k: conj(le(h, vget(v, k)), lt(vget(v, k), e)), lambda k: [vget(v, k)], lo=h))
                yield 'rnge %s' % i.name, imp(ge(ii, h), allk(e, lambda k: conj(le(h, vget(v, k)), lt(vget(v, k), e)), lambda k: [vget(v, k)], lo=h))
                yield 'dist %s' % i.name, imp(ge(ii, h), dist(v, h, ii)); yield 'diste', dist(v, h, e)
                for hi in (ii, e): yield 'digits %s %s' % (i.name, hi is e), imp(ge(ii, h), allk(hi, lambda k: eq(vget(v, k), add(h, add(dig(n0, e, k), cu(v, h, k, vget(v, k))))), lambda k: [vget(v, k)], lo=h))
            if i in L.mints:
                yield 'le %s' % i.name, le(ii, e); yield 'ge %s' % i.name, ge(ii, h); yield 'let %s' % i.name, le(ii, t); yield 'leh %s' % i.name, le(ii, h); yield 'gee %s' % i.name, ge(ii, e)
            for m in L.mints:
                if m.name != i.name: yield 'rem %s %s' % (m.name, i.name), conj(eq(L.int(m), nrem(n0, e, ii)), mention(nrem(n0, e, add(ii, 1))))
            for b in INTS:
                if b.name == i.name: continue
                bb = L.int(b)
                for ob in L.mints:
                    if ob.name in (i.name, b.name): continue
                    o = L.int(ob)
                    yield 'b %s %s %s' % (b.name, ob.name, i.name), conj(eq(bb, add(h, add(dig(n0, e, ii), cu(v, h, ii, o)))), le(h, o), le(o, add(bb, 1)), lt(bb, e))
                    yield 'mb %s %s' % (ob.name, i.name), mention(cu(v, h, ii, add(o, 1)))
                    yield 'free %s %s %s' % (b.name, ob.name, i.name), imp(eq(o, add(bb, 1)), mk_not(inr(v, h, ii, bb)))
        for j in L.mints:
            for o in INTS:
                if o.name != j.name: yield 'notyet %s %s' % (j.name, o.name), allk(L.int(j), lambda k: ne(vget(v, k), L.int(o)), lambda k: [vget(v, k)])
NTH = 'nth_row_of_extent(unsigned long, unsigned int, unsigned int, unsigned int)'
contract(NTH, prop='C13', requires=lambda c: [le(c[1], 20), le(add(c[1], c[2]), c[3]), le(c[3], 255), lt(c[0], zfact(c[1]))],
    ensures=lambda c: [eq(vlen(c.result), c[3]), fixes(c.result, c[1], c[2], c[3]), eq(lehr(c.result, c[2], add(c[1], c[2]), add(c[1], c[2])), c[0])], inv=[nth_inv], variant=[lambda L: [('v ' + p.name, sub(add(add(L.c[1], L.c[2]), 1), L.int(p))) for p in L.mints]],
    exitghost=lambda c: [c[0], lehr(c.result, c[2], add(c[1], c[2]), add(c[1], c[2]))])
contract('nth_row_of_extent(unsigned long, unsigned int, unsigned int)', prop='C13', requires=lambda c: [le(c[1], 20), le(add(c[1], c[2]), 255), lt(c[0], zfact(c[1]))],
    ensures=lambda c: [eq(vlen(c.result), add(c[1], c[2])), fixes(c.result, c[1], c[2], add(c[1], c[2])), eq(lehr(c.result, c[2], add(c[1], c[2]), add(c[1], c[2])), c[0])])
contract('extent::operator[](unsigned long) const', prop='C13', requires=lambda c: [le(nw(c.this), 20), le(add(nw(c.this), nh(c.this)), nt(c.this)), le(nt(c.this), 255), lt(c[0], zfact(nw(c.this)))],
    ensures=lambda c: [eq(vlen(c.result), nt(c.this)), fixes(c.result, nw(c.this), nh(c.this), nt(c.this)), eq(lehr(c.result, nh(c.this), add(nw(c.this), nh(c.this)), add(nw(c.this), nh(c.this))), c[0])])
def rr_inv(L):
    c = L.c
    for v_ in L.mvecs:
        v = L.vec(v_)
        if v.sort == VI:
            yield 'len %s' % v_[0], eq(vlen(v), c[2]); yield 'p %s' % v_[0], perm(v)
            yield 'fix %s' % v_[0], fixes(v, c[0], c[1], c[2])
    for p in L.mints: yield 'le %s' % p.name, le(L.int(p), c[0])
contract('random_row(unsigned int, unsigned int, unsigned int)', prop='C13', requires=lambda c: [le(add(c[0], c[1]), c[2]), le(c[2], MAXROW)], ensures=lambda c: [eq(vlen(c.result), c[2]), fixes(c.result, c[0], c[1], c[2])], inv=[rr_inv])
contract('random_row(unsigned int, unsigned int)', prop='C13', requires=lambda c: [le(add(c[0], c[1]), MAXROW)], ensures=lambda c: [eq(vlen(c.result), add(c[0], c[1])), fixes(c.result, c[0], c[1], add(c[0], c[1]))])
contract('random_int(unsigned int)', prop='C13', trusted='floating point; the result is checked by the bounded harness', requires=lambda c: gt(c[0], 0), ensures=lambda c: lt(c.result, c[0]))
# ---- in course ---------------------------------------------------------------------------------------
rsg = lambda v: ite(eq(mod(sub(vlen(v), nlead(v, vlen(v))), 2), 0), 1, -1)
A('lehr_swap', forall([VI, 'Int', VI] + ['Int'] * 2, lambda v, n, sw, h, e: imp(conj(perm(v), eq(vlen(v), n), le(0, h), le(add(h, 2), e), le(e, n), memb(sw, sub(e, 2)), home(v, 0, h), home(v, e, n)),
    disj(exists(1, lambda y: conj(memb(sw, y), ne(y, sub(e, 2))), pats=lambda y: [[memb(sw, y)]]),
      conj(eq(div(lehr(rapp(v, n, sw), h, e, e), 2), div(lehr(v, h, e, e), 2)), home(rapp(v, n, sw), 0, h), home(rapp(v, n, sw), e, n),
        eq(rsg(rapp(v, n, sw)), sub(0, rsg(v)))))), pats=lambda v, n, sw, h, e: [[rapp(v, n, sw), lehr(v, h, e, e)]]), ['lehr', 'rapp', 'nlead'])
for k_, h_, t_ in (('unsigned long, unsigned int, unsigned int, unsigned int', lambda c: c[2], lambda c: c[3]), ('unsigned long, unsigned int, unsigned int', lambda c: c[2], lambda c: add(c[1], c[2]))):
    (lambda h, t: contract('nth_row_of_incourse_extent(%s)' % k_, prop='C13', requires=lambda c: [le(2, c[1]), le(c[1], 20), le(add(c[1], h(c)), t(c)), le(t(c), 255), lt(scale(2, c[0]), sub(zfact(c[1]), 1))],
      ensures=lambda c: [eq(vlen(c.result), t(c)), fixes(c.result, c[1], h(c), t(c)), eq(rsg(c.result), 1), eq(div(lehr(c.result, h(c), add(c[1], h(c)), add(c[1], h(c))), 2), c[0])], exitghost=lambda c: [c[0], zfact(c[1])]))(h_, t_)
npk = declare('npk', (VI, 'Int', 'Int', 'Int'), VI)            # the k-th arrangement after this one
nleft = declare('nleft', (VI, 'Int', 'Int'), 'Int')           # how many arrangements follow this one
A('npk_0', forall([VI] + II, lambda v, i, j: eq(npk(v, i, j, 0), v), pats=lambda v, i, j: [[npk(v, i, j, 0)]]), ['npk'])
A('npk_s', forall([VI] + ['Int'] * 4 + [VI], lambda v, i, j, k, l, w: imp(conj(le(0, k), eq(l, add(k, 1)), eq(w, npk(v, i, j, k))), eq(npk(v, i, j, l), stl.npm(w, i, j))), pats=lambda v, i, j, k, l, w: [[npk(v, i, j, k), npk(v, i, j, l), stl.npm(w, i, j)]]), ['npk'])
A('nleft', forall([VI] + II, lambda v, i, j: conj(le(0, nleft(v, i, j)), eq(stl.npend(v, i, j), eq(nleft(v, i, j), 0)), imp(gt(nleft(v, i, j), 0), eq(nleft(stl.npm(v, i, j), i, j), sub(nleft(v, i, j), 1)))), pats=lambda v, i, j: [[nleft(v, i, j), stl.npend(v, i, j)]]), ['nleft'])

iex = lambda x: (er(x), nh(x), add(nh(x), nw(x)))
ICI = 'incourse_extent_iterator'
nodd = declare('nodd', (VI, 'Int', 'Int', 'Int'), 'Bool')     # none of the next arrangements, before the m-th, is in course
A('nodd_1', forall([VI] + II, lambda v, i, j: nodd(v, i, j, 1), pats=lambda v, i, j: [[nodd(v, i, j, 1)]]), ['nodd'])
A('nodd_s', forall([VI] + ['Int'] * 4 + [VI], lambda v, i, j, m, k, w: imp(conj(ge(m, 1), eq(k, add(m, 1)), eq(w, npk(v, i, j, m))), eq(nodd(v, i, j, k), conj(nodd(v, i, j, m), ne(rsg(w), 1)))), pats=lambda v, i, j, m, k, w: [[nodd(v, i, j, m), nodd(v, i, j, k), npk(v, i, j, m), nlead(w, vlen(w))]]), ['nodd'])
def ici_post(c, x):
    r0 = iex(c.this); m = sub(nleft(*r0), nleft(*iex(x)))
    return [ite(ended(x), nodd(*r0, add(nleft(*r0), 1)), conj(eq(rsg(er(x)), 1), ge(m, 1), eq(er(x), npk(*r0, m)), nodd(*r0, m)))] + [eq(g(x), g(c.this)) for g in (nw, nh, nt)] + wf(x)
def ici_inv(L):
    c = L.c; r0 = iex(c.this); x = c.this1
    if not isinstance(x, Term): return
    m = sub(nleft(*r0), nleft(*iex(x)))
    yield 'm', mention(npk(*r0, 0)); yield 'm1', mention(npk(*r0, m)); yield 'm2', mention(npk(*r0, add(m, 1))); yield 'm3', mention(nodd(*r0, add(m, 2))); yield 'm4', mention(rsg(er(x)))
    yield 'run', conj(ge(m, 0), eq(er(x), npk(*r0, m)), nodd(*r0, add(m, 1)))
    yield 'alive', mk_not(ended(x))
    for n, g in enumerate([eq(g(x), g(c.this)) for g in (nw, nh, nt)] + wf(x)): yield 'ok%d' % n, g
contract(ICI + '::operator++()', prop='C13', requires=lambda c: wf(c.this) + [mk_not(ended(c.this))], ensures=lambda c: ici_post(c, c.this1), inv=[ici_inv], variant=[lambda L: [('left', nleft(*iex(L.c.this1)))]])
contract(ICI + '::operator++(int)', prop='C13', requires=lambda c: wf(c.this) + [mk_not(ended(c.this))], ensures=lambda c: [eq(c.result, c.this)] + ici_post(c, c.this1))
contract(ICI + '::' + ICI + '()', prop='C13', ensures=lambda c: ended(c.this1))
mk_its(ICI + '::' + ICI + '(unsigned int, unsigned int, unsigned int)', lambda c: c[2])
mk_its(ICI + '::' + ICI + '(unsigned int, unsigned int)', lambda c: add(c[0], c[1]))
contract(ICI + '::operator==(const incourse_extent_iterator &) const', prop='C13', alias=[0], ensures=lambda c: eq(c.result, ieq(c.this, c[0])))
contract(ICI + '::operator!=(const incourse_extent_iterator &) const', prop='C13', alias=[0], ensures=lambda c: eq(c.result, mk_not(ieq(c.this, c[0]))))
