"""Contracts for dimensions (C20)."""
from .core import *
dn = lambda x: recget(x, 'n'); dd = lambda x: recget(x, 'd'); du = lambda x: recget(x, 'u')
zabs = lambda x: ite(ge(x, 0), x, sub(0, x))
A('zgcd_pos', forall(II, lambda a, b: imp(conj(ge(a, 0), ge(b, 0), gt(add(a, b), 0)), ge(zgcd(a, b), 1)), pats=lambda a, b: [[zgcd(a, b)]]), ['zgcd'])
A('zgcd_div', forall(['Int'] * 3, lambda a, b, g: imp(conj(ge(a, 0), gt(b, 0), eq(g, zgcd(a, b))),
    conj(eq(mul(g, ediv(a, g)), a), eq(mul(g, ediv(b, g)), b), eq(zgcd(ediv(a, g), ediv(b, g)), 1), ge(ediv(b, g), 1), le(ediv(b, g), b), ge(ediv(a, g), 0), le(ediv(a, g), a))), pats=lambda a, b, g: [[zgcd(a, b), ediv(a, g), ediv(b, g)]]), ['zgcd', 'ediv'])
def red_inv(L):
    c = L.c
    if c.this is None: return
    ps = L.mints
    for p in ps:
        a = L.int(p)
        yield 'rng %s' % p.name, conj(le(-INTMAX, a), le(a, INTMAX))
        for q in ps:
            if p is q: continue
            b = L.int(q)
            yield 'gcd %s %s' % (p.name, q.name), conj(eq(zgcd(zabs(a), zabs(b)), zgcd(zabs(dn(c.this)), zabs(dd(c.this)))), mk_not(conj(eq(a, 0), eq(b, 0))))
def lowest(n1, d1, n, d):
    """n1/d1 is n/d in lowest terms"""
    g = zgcd(zabs(n), zabs(d)); q = ediv(zabs(n), g)
    return [gt(d1, 0), eq(d1, ediv(zabs(d), g)), eq(n1, ite(eq(ge(n, 0), gt(d, 0)), q, sub(0, q))), eq(zgcd(zabs(n1), d1), 1), eq(mul(g, d1), zabs(d)), eq(mul(g, zabs(n1)), zabs(n)), le(d1, zabs(d)), le(zabs(n1), zabs(n))]
fit = lambda *xs: [conj(le(-INTMAX, x), le(x, INTMAX)) for x in xs]
red_post = lambda x1, n, d, u: lowest(dn(x1), dd(x1), n, d) + [eq(du(x1), u)]
def rv(L):
    for p in L.mints: yield 'v ' + p.name, zabs(L.int(p))
gh = lambda n, d: [zgcd(zabs(n), zabs(d)), ediv(zabs(n), zgcd(zabs(n), zabs(d))), ediv(zabs(d), zgcd(zabs(n), zabs(d)))]
contract('dimension::reduce()', prop='C20', requires=lambda c: [ne(dd(c.this), 0)] + fit(dn(c.this), dd(c.this)), ensures=lambda c: red_post(c.this1, dn(c.this), dd(c.this), du(c.this)), inv=[red_inv], variant=[rv],
    exitghost=lambda c: gh(dn(c.this), dd(c.this)))
for nm, f in (('*', lambda n, d, i: (mul(n, i), d)), ('/', lambda n, d, i: (n, mul(d, i)))):
    (lambda f: (contract('dimension::operator%s=(int)' % nm, prop='C20', requires=lambda c: [ne(f(dn(c.this), dd(c.this), c[0])[1], 0)] + fit(*f(dn(c.this), dd(c.this), c[0])), ret_ref='this',
        ensures=lambda c: red_post(c.this1, *f(dn(c.this), dd(c.this), c[0]), du(c.this))),
      contract('dimension::operator%s(int) const' % nm, prop='C20', requires=lambda c: [ne(f(dn(c.this), dd(c.this), c[0])[1], 0)] + fit(*f(dn(c.this), dd(c.this), c[0])), ensures=lambda c: red_post(c.result, *f(dn(c.this), dd(c.this), c[0]), du(c.this)))))(f)
contract('dimension::operator-() const', prop='C20', requires=lambda c: fit(dn(c.this)), ensures=lambda c: [eq(dn(c.result), sub(0, dn(c.this))), eq(dd(c.result), dd(c.this)), eq(du(c.result), du(c.this))])
contract('dimension::operator==(int) const', prop='C20', ensures=lambda c: eq(c.result, conj(eq(c[0], 0), eq(dn(c.this), 0))))
contract('dimension::operator!=(int) const', prop='C20', ensures=lambda c: eq(c.result, mk_not(conj(eq(c[0], 0), eq(dn(c.this), 0)))))
is_ = lambda n, d, u: (lambda c: [eq(dn(c.this1), n(c)), eq(dd(c.this1), d(c)), eq(du(c.this1), u(c))])
contract('dimension::dimension()', prop='C20', ensures=is_(lambda c: num(0), lambda c: num(1), lambda c: num(0)))
contract('dimension::dimension(int)', prop='C20', ensures=is_(lambda c: c[0], lambda c: num(1), lambda c: num(0)))
contract('dimension::dimension(int, int, dimension::units)', prop='C20', ensures=is_(lambda c: c[0], lambda c: c[1], lambda c: c[2]))
# ---- reading ---------------------------------------------------------------------------------------
from .pn import wsend, isspc, CHIT
isdg = lambda c: conj(le(48, c), le(c, 57))
dgend = declare('dgend', (VI, 'Int', 'Int'), 'Int')      # the first position from i, before e, that is not a digit (or e)
A('dgend_rng', forall([VI] + II, lambda v, i, e: imp(le(i, e), conj(le(i, dgend(v, i, e)), le(dgend(v, i, e), e), imp(lt(dgend(v, i, e), e), mk_not(isdg(vget(v, dgend(v, i, e))))))), pats=lambda v, i, e: [[dgend(v, i, e)]]), ['dgend'])
A('dgend_min', forall([VI] + ['Int'] * 3, lambda v, i, e, k: imp(conj(le(i, k), lt(k, dgend(v, i, e)), le(i, e)), isdg(vget(v, k))), pats=lambda v, i, e, k: [[dgend(v, i, e), vget(v, k)]]), ['dgend'])
dvl = declare('dvl', (VI, 'Int', 'Int', 'Int'), 'Int')    # the number a followed by the digits from i up to j
A('dvl_0', forall([VI] + II, lambda v, i, a: eq(dvl(v, i, i, a), a), pats=lambda v, i, a: [[dvl(v, i, i, a)]]), ['dvl'])
A('dvl_s', forall([VI] + ['Int'] * 4, lambda v, i, j, k, a: imp(conj(le(i, j), eq(k, add(j, 1))), eq(dvl(v, i, k, a), add(scale(10, dvl(v, i, j, a)), sub(vget(v, j), 48)))), pats=lambda v, i, j, k, a: [[dvl(v, i, j, a), dvl(v, i, k, a)]]), ['dvl'])
# digits only make it larger (up to the end of the digits that begin at i)
A('dvl_mono', forall([VI] + ['Int'] * 4, lambda v, i, j, e, a: imp(conj(le(i, j), le(j, dgend(v, i, e)), le(i, e), ge(a, 0)), conj(le(0, dvl(v, i, j, a)), le(dvl(v, i, j, a), dvl(v, i, dgend(v, i, e), a)))), pats=lambda v, i, j, e, a: [[dvl(v, i, j, a), dgend(v, i, e)]]), ['dvl'])
A('zpow_10', forall(II, lambda n, m: imp(conj(ge(n, 0), le(n, m)), conj(ge(zpow(10, n), 1), le(zpow(10, n), zpow(10, m)))), pats=lambda n, m: [[zpow(10, n), zpow(10, m)]]), ['zpow'])
unitok = declare('unitok', (VI, 'Int'), 'Bool'); unitof = declare('unitof', (VI, 'Int'), 'Int')   # the unit named from position i
MINUS, DOT, SLASH = 45, 46, 47
def grammar(v):
    """[(condition, bad, numerator, denominator, position of the unit)] for the text of v, cases exclusive and complete"""
    n = vlen(v); ws = lambda i: wsend(v, i, n); dg = lambda i: dgend(v, i, n); at = lambda i: vget(v, i)
    num_ = lambda i: dvl(v, add(i, 1), dg(add(i, 1)), sub(at(i), 48))
    p0 = ws(num(0)); neg = eq(at(p0), MINUS); p1 = ite(neg, ws(add(p0, 1)), p0)
    sg = lambda x: ite(neg, sub(0, x), x)
    d1 = isdg(at(p1)); p2 = dg(add(p1, 1)); a = num_(p1)
    dec = eq(at(p2), DOT); q3 = dg(add(p2, 1)); a2 = dvl(v, add(p2, 1), q3, a); b2 = zpow(10, sub(q3, add(p2, 1)))
    p3 = ws(p2); two = isdg(at(p3)); p4 = dg(add(p3, 1)); b = num_(p3); p5 = ws(p4); p6 = ws(add(p5, 1)); p7 = dg(add(p6, 1)); cc = num_(p6)
    ok2 = conj(eq(at(p5), SLASH), isdg(at(p6)), ne(cc, 0))
    one = eq(at(p3), SLASH); r4 = ws(add(p3, 1)); r5 = dg(add(r4, 1)); rc = num_(r4)
    ok1 = conj(isdg(at(r4)), ne(rc, 0))
    return [(mk_not(d1), TRUE, None, None, None), (conj(d1, dec), mk_not(unitok(v, q3)), sg(a2), b2, q3),
        (conj(d1, mk_not(dec), two), mk_not(conj(ok2, unitok(v, p7))), sg(add(mul(a, cc), b)), cc, p7),
        (conj(d1, mk_not(dec), mk_not(two), one), mk_not(conj(ok1, unitok(v, r5))), sg(a), rc, r5),
        (conj(d1, mk_not(dec), mk_not(two), mk_not(one)), mk_not(unitok(v, p3)), sg(a), num(1), p3)], [a, a2, b2, b, cc, rc], dict(dec=conj(d1, dec), two=conj(d1, mk_not(dec), two), one=conj(d1, mk_not(dec), mk_not(two), one), d1=d1, ok2=conj(eq(at(p5), SLASH), isdg(at(p6))), ok1=isdg(at(r4)))
def read_bad(v): return disj(*[conj(c, b) for c, b, *_ in grammar(v)[0]])
def read_fits(v):
    cs, (a, a2, b2, b, cc, rc), g = grammar(v)
    small = lambda x: le(x, INTMAX)
    return [imp(g['d1'], small(a)), imp(g['dec'], conj(small(a2), small(b2))), imp(g['two'], small(b)), imp(conj(g['two'], g['ok2']), conj(small(cc), small(mul(a, cc)), small(add(mul(a, cc), b)))), imp(conj(g['one'], g['ok1']), small(rc))]
def read_post(v, x1):
    out = []
    for c, b, N, D, p in grammar(v)[0]:
        if N is not None: out += [imp(c, g) for g in red_post(x1, N, D, unitof(v, p))]
    return out
def dr_inv(L):
    c = L.c
    if not len(c.pre_args) or not hasattr(c[0], 'vec'): return
    v = c[0].vec; n = vlen(v)
    for p in L.mints:
        if p.kind != 'ptr': continue
        i = L.int(p); i0 = L.int0(p)
        yield 'ws', conj(le(i0, i), le(i, wsend(v, i0, n)))
        yield 'dg', conj(le(i0, i), le(i, dgend(v, i0, n)))
        for q in L.mints:
            if q.kind == 'ptr': continue
            yield 'val %s' % q.name, conj(eq(L.int(q), dvl(v, i0, i, L.int0(q))), mention(dvl(v, i0, add(i, 1), L.int0(q))), ge(L.int(q), 0))
            yield 'pow %s' % q.name, conj(eq(L.int(q), zpow(10, sub(i, i0))), mention(zpow(10, add(sub(i, i0), 1))), ge(L.int(q), 1))
at0 = lambda c: [eq(c[0].i, 0)]
contract('dimension::read_units(const char *)', prop='C20', trusted='the table of unit names is a static std::map; checked by the bounded harness', throws=[('ringing::dimension::bad_format', lambda c: mk_not(unitok(c[0].vec, c[0].i)))],
    ensures=lambda c: [eq(dn(c.this1), dn(c.this)), eq(dd(c.this1), dd(c.this)), eq(du(c.this1), unitof(c[0].vec, c[0].i))])
contract('dimension::read(const char *)', prop='C20', requires=lambda c: at0(c) + read_fits(c[0].vec), throws=[('ringing::dimension::bad_format', lambda c: read_bad(c[0].vec))],
    ensures=lambda c: read_post(c[0].vec, c.this1), inv=[dr_inv])
contract('dimension::read(const std::string &)', prop='C20', requires=lambda c: [forall(1, lambda k: imp(rng(k, vlen(c[0])), ne(vget(c[0], k), 0)), pats=lambda k: [[vget(c[0], k)]])] + read_fits(c[0]), throws=[('ringing::dimension::bad_format', lambda c: read_bad(c[0]))],
    ensures=lambda c: read_post(c[0], c.this1))
# ---- printing --------------------------------------------------------------------------------------
decimal = declare('decimal', ('Int',), VI)
def txt(s):
    r = vempty('Int')
    for ch in s: r = stl.vpush(r, num(ord(ch)))
    return r
def cat(*xs):
    r = xs[0]
    for x in xs[1:]: r = stl.vcat(r, x)
    return r
def out_cases(s0, s1, x, unit):
    """s1 is s0 followed by the dimension x"""
    n, d = dn(x), dd(x); m = emod(zabs(n), d); q = ediv(zabs(n), d)
    whole = cat(s0, decimal(ite(ge(n, 0), q, sub(0, q)))); frac = lambda s: cat(s, decimal(m), txt('/'), decimal(d), txt(' '), unit)
    return [imp(eq(d, 0), eq(s1, s0))] + [imp(conj(gt(d, 0), g), eq(s1, t)) for g, t in (
        (eq(n, 0), cat(s0, txt('0 '), unit)),
        (conj(ne(n, 0), ne(q, 0), eq(m, 0)), cat(whole, txt(' '), unit)),
        (conj(ne(n, 0), ne(q, 0), ne(m, 0)), frac(cat(whole, txt(' ')))),
        (conj(eq(q, 0), gt(n, 0)), frac(s0)),
        (conj(eq(q, 0), lt(n, 0)), frac(cat(s0, txt('-')))))]
sbuf = lambda s: s.f['buf']
UN = {0: 'pt', 1: 'in', 2: 'cm', 3: 'mm'}
def out_post(c):
    return [g for k, u in UN.items() for g in [imp(eq(du(c[1]), k), g) for g in out_cases(sbuf(c[0]), sbuf(c.post(0)), c[1], txt(u))]]
contract('operator<<(std::ostream &, const dimension &)', prop='C20', ret_ref=0, requires=lambda c: [ge(dd(c[1]), 0), le(du(c[1]), 3)] + fit(dn(c[1])), ensures=out_post)
contract('dimension::write(std::string &) const', prop='C20', requires=lambda c: [ge(dd(c.this), 0), le(du(c.this), 3)] + fit(dn(c.this)), ret_ref=0,
    ensures=lambda c: [g for k, u in UN.items() for g in [imp(eq(du(c.this), k), g) for g in out_cases(vempty('Int'), c.post(0), c.this, txt(u))]])
