"""Contracts for place notation."""
from .core import *

# ---- changes from lists of places ----------------------------------------------------------
fillsw = declare('fillsw', ('Int', 'Int'), VI)      # a, a+2, .. : the swaps between a and b
A('fillsw_len', forall(II, lambda a, b: eq(vlen(fillsw(a, b)), ite(lt(a, b), div(sub(b, a), 2), 0)), pats=lambda a, b: [[fillsw(a, b)]]), ['fillsw'])
A('fillsw_get', forall(['Int'] * 3, lambda a, b, k: eq(vget(fillsw(a, b), k), ite(rng(k, vlen(fillsw(a, b))), add(a, scale(2, k)), 0)), pats=lambda a, b, k: [[vget(fillsw(a, b), k)]]), ['fillsw'])
pb = lambda v, k: ite(eq(k, 0), 0, add(vget(v, sub(k, 1)), 1))              # where the next place may be
pbs = lambda v, k: ite(conj(eq(k, 0), eq(mod(vget(v, 0), 2), 1)), 1, pb(v, k))   # with the implied place at lead
badpl = lambda v, n, k: disj(ge(vget(v, k), n), lt(vget(v, k), pb(v, k)), conj(gt(pb(v, k), 0), eq(mod(sub(vget(v, k), pb(v, k)), 2), 1)))
plsw = declare('plsw', (VI, 'Int'), VI)             # the swaps up to the k-th place
A('plsw_0', forall([VI], lambda v: eq(plsw(v, 0), vempty('Int')), pats=lambda v: [[plsw(v, 0)]]), ['plsw'])
A('plsw_s', forall([VI, 'Int', 'Int'], lambda v, k, j: imp(conj(rng(k, vlen(v)), eq(j, add(k, 1))), eq(plsw(v, j), stl.vcat(plsw(v, k), fillsw(pbs(v, k), vget(v, k))))), pats=lambda v, k, j: [[plsw(v, k), plsw(v, j)]]), ['plsw', 'fillsw', 'vcat_Int'])
plch = lambda v, n: stl.vcat(plsw(v, vlen(v)), fillsw(pb(v, vlen(v)), n))
contract('append_swaps_between(std::vector<bell> &, bell &, bell)', prop='C06', modifies={0, 1}, requires=lambda c: [le(c[1], c[2]), le(c[2], MAXCH)],
    ensures=lambda c: [eq(c.post(0), stl.vcat(c[0], fillsw(c[1], c[2]))), eq(c.post(1), ite(eq(c[2], 255), 0, add(c[2], 1)))],
    inv=[lambda L: asb_inv(L)])
def asb_inv(L):
    c = L.c
    for p in L.mints:
        s = L.int(p)
        yield 'even %s' % p.name, eq(mod(sub(s, c[1]), 2), 0)
        yield 'le %s' % p.name, conj(le(c[1], s), le(s, c[2]))
        for v_ in L.mvecs:
            v = L.vec(v_)
            if v.sort == VI: yield 'filled', eq(v, stl.vcat(c[0], fillsw(c[1], s)))
def pl_inv(L):
    c = L.c; pv = c[1]
    if not (isinstance(pv, Term) and pv.sort == VI): return
    for p in L.mints:
        if p.kind != 'ptr': continue
        i = L.int(p)
        for q in L.ints:
            yield 'from %s' % q.name, eq(L.int(q), pb(pv, i))
        yield 'ok', allk(i, lambda k: mk_not(badpl(pv, c[0], k)), lambda k: [vget(pv, k)])
        yield 'm', mention(plsw(pv, add(i, 1)))
        for v_ in L.vecs:
            v = L.vec(v_)
            if v.sort == VI and v is not pv:
                yield 'swaps', eq(v, plsw(pv, i))
                yield 'below', allk(vlen(v), lambda k: le(add(vget(v, k), 2), pb(pv, i)), lambda k: [vget(v, k)])
                for n, g in enumerate(legal(c[0], v)): yield 'legal%d' % n, g
contract('change::change(int, const std::vector<bell> &)', prop='C06', requires=lambda c: [le(0, c[0]), le(c[0], MAXCH)],
    throws=[('ringing::change::invalid', lambda c: mk_not(allk(vlen(c[1]), lambda k: mk_not(badpl(c[1], c[0], k)), lambda k: [vget(c[1], k)])))],
    ensures=lambda c: [eq(n_of(c.this1), c[0]), eq(SW1(c), plch(c[1], c[0]))], inv=[pl_inv], exitghost=lambda c: [plsw(c[1], 0)])

# ---- the scanner of place notation -----------------------------------------------------------
from cppv.contract import iterators
CHIT = ['const char *', '__gnu_cxx::__normal_iterator<const char *, std::string>']
isspc = lambda c: disj(conj(le(9, c), le(c, 13)), eq(c, 32))
wsend = declare('wsend', (VI, 'Int', 'Int'), 'Int')      # the first position from i, before e, that is not a space (or e)
A('wsend_rng', forall([VI] + II, lambda v, i, e: imp(le(i, e), conj(le(i, wsend(v, i, e)), le(wsend(v, i, e), e), imp(lt(wsend(v, i, e), e), mk_not(isspc(vget(v, wsend(v, i, e))))))), pats=lambda v, i, e: [[wsend(v, i, e)]]), ['wsend'])
A('wsend_min', forall([VI] + ['Int'] * 3, lambda v, i, e, k: imp(conj(le(i, k), lt(k, wsend(v, i, e)), le(i, e)), isspc(vget(v, k))), pats=lambda v, i, e, k: [[wsend(v, i, e), vget(v, k)]]), ['wsend'])
def ws_inv(L):
    c = L.c; t = c[0].vec; e = c[1].i
    for p in L.mints:
        yield 'upto %s' % p.name, conj(le(c[0].i, L.int(p)), le(L.int(p), wsend(t, c[0].i, e)))
def rb_inv(L):
    c = L.c; t = c[0].vec; e = c[1].i; a = add(c[0].i, 1)
    for p in L.mints:
        i = L.int(p)
        yield 'upto %s' % p.name, conj(le(a, i), le(i, closeb(t, a, e)))
        for q in L.mints:
            if q is not p:
                yield 'depth %s' % q.name, eq(L.int(q), bdep(t, a, i))
                yield 'depthrng %s' % q.name, conj(le(L.int(q), sub(i, a)), ge(L.int(q), sub(a, i)), ge(L.int(q), 0))
bdep = declare('bdep', (VI, 'Int', 'Int'), 'Int')        # open braces between a and j
closeb = declare('closeb', (VI, 'Int', 'Int'), 'Int')    # the brace closing one opened just before a (or e)
A('bdep_0', forall([VI, 'Int'], lambda v, a: eq(bdep(v, a, a), 0), pats=lambda v, a: [[bdep(v, a, a)]]), ['bdep'])
A('bdep_s', forall([VI] + ['Int'] * 3, lambda v, a, j, k: imp(conj(le(a, j), eq(k, add(j, 1))), eq(bdep(v, a, k), add(bdep(v, a, j), ite(eq(vget(v, j), 123), 1, ite(eq(vget(v, j), 125), -1, 0))))), pats=lambda v, a, j, k: [[bdep(v, a, j), bdep(v, a, k)]]), ['bdep'])
isclose = lambda v, a, k: conj(eq(vget(v, k), 125), eq(bdep(v, a, k), 0))
A('closeb_rng', forall([VI] + II, lambda v, a, e: imp(le(a, e), conj(le(a, closeb(v, a, e)), le(closeb(v, a, e), e), imp(lt(closeb(v, a, e), e), isclose(v, a, closeb(v, a, e))))), pats=lambda v, a, e: [[closeb(v, a, e)]]), ['closeb'])
A('closeb_min', forall([VI] + ['Int'] * 3, lambda v, a, e, k: imp(conj(le(a, k), lt(k, closeb(v, a, e)), le(a, e)), mk_not(isclose(v, a, k))), pats=lambda v, a, e, k: [[closeb(v, a, e), bdep(v, a, k)]]), ['closeb'])
for it_ in CHIT:
    R_ = '&' if it_[-1] == '*' else ' &'
    contract('details::skip_ws<%s>(%s%s, %s)' % (it_, it_, R_, it_), prop='C09', params=iterators, modifies={0}, requires=lambda c: conj(le(c[0].i, c[1].i), le(c[1].i, vlen(c[1].vec))),
        ensures=lambda c: eq(c.post(0).i, wsend(c[0].vec, c[0].i, c[1].i)), inv=[ws_inv])
    contract('details::skip_sep<%s>(%s%s, %s, char)' % (it_, it_, R_, it_), prop='C09', params=iterators, modifies={0}, requires=lambda c: conj(le(c[0].i, c[1].i), le(c[1].i, vlen(c[1].vec))),
        ensures=lambda c: [(lambda w, t, e: conj(eq(c.result, conj(lt(w, e), eq(vget(t, w), c[2]))), eq(c.post(0).i, ite(conj(lt(w, e), eq(vget(t, w), c[2])), wsend(t, add(w, 1), e), wsend(t, w, e)))))(wsend(c[0].vec, c[0].i, c[1].i), c[0].vec, c[1].i)])
    contract('read_bell_expr<%s>(%s, %s)' % (it_, it_, it_), prop='C09', params=iterators, requires=lambda c: conj(lt(c[0].i, c[1].i), le(c[1].i, vlen(c[1].vec))),
        throws=[('ringing::bell::invalid', lambda c: conj(eq(vget(c[0].vec, c[0].i), 123), eq(closeb(c[0].vec, add(c[0].i, 1), c[1].i), c[1].i)))],
        ensures=lambda c: eq(c.result.i, ite(eq(vget(c[0].vec, c[0].i), 123), add(closeb(c[0].vec, add(c[0].i, 1), c[1].i), 1), c[0].i)),
        ret_ref=lambda X, ctx: ctx._args[0].at(X.freshvar('rbe', 'Int')), inv=[rb_inv])
