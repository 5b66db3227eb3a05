"""Contracts of ringing/group.h, group.cpp."""
from cppv.terms import *
from cppv.contract import *
from cppv import stl
from .lib import *
VVI = ('Vec', VI)
F = recget
E0 = vempty('Int')
_su = 'su' + stl.ss(VI)
srt = declare('srt_' + _su, (VVI,), 'Bool'); slo = declare('eqlo_' + _su, (VVI, VI), 'Int'); shi = declare('eqhi_' + _su, (VVI, VI), 'Int')
smem = lambda s, x: lt(slo(s, x), shi(s, x))                 # member of an ordered set
inv_ = lambda v, x: lt(stl.vfind(v, x, 0), vlen(v))          # element of a list
# members of the list that a stack holds
vmem = declare('vmem', (VVI, VI), 'Bool')
AR = ('Array', VI)
A('vmem_0', forall([VI], lambda y: mk_not(vmem(vempty(VI), y)), pats=lambda y: [[vmem(vempty(VI), y)]]), ['vmem'], 'definition')
A('vmem_push', forall(['Int', 'Int', AR, VI, VI], lambda m, n, a, x, y: imp(conj(ge(n, 0), eq(m, add(n, 1))), eq(vmem(mkvec(m, store(a, n, x)), y), disj(vmem(mkvec(n, a), y), eq(x, y)))), pats=lambda m, n, a, x, y: [[vmem(mkvec(m, store(a, n, x)), y)]]), ['vmem'], 'definition')
A('vmem_pop', forall([VVI, VI], lambda v, y: imp(ge(vlen(v), 1), eq(vmem(v, y), disj(vmem(vpop(v), y), eq(vget(v, sub(vlen(v), 1)), y)))), pats=lambda v, y: [[vmem(vpop(v), y)]]), ['vmem'], 'definition')
A('vmem_last', forall(['Int', AR], lambda m, a: imp(ge(m, 0), vmem(mkvec(add(m, 1), a), select(a, m))), pats=lambda m, a: [[mkvec(m, store(a, m, default(VI)))]]), ['vmem'])
# what is reached from r by multiplying with rows of the list G (the least such set)
reach = declare('reach', (VVI, VI, VI), 'Bool')
A('reach_0', forall([VVI, VI], lambda G, r: reach(G, r, r), pats=lambda G, r: [[reach(G, r, r)]]), ['reach'], 'definition')
A('reach_s', forall([VVI, VI, VI, 'Int'], lambda G, r, y, k: imp(conj(reach(G, r, y), rng(k, vlen(G))), reach(G, r, rprod(y, vget(G, k)))), pats=lambda G, r, y, k: [[reach(G, r, y), rprod(y, vget(G, k))], [reach(G, r, rprod(y, vget(G, k)))]]), ['reach'], 'definition')
OPAQUE = ('perm_rng', 'perm_len', 'perm_ipos', 'perm_sur', 'perm_intro', 'rprod_get', 'rprod_len', 'rquot_get', 'rinv_get')
COS = tuple(x for x in OPAQUE if x != 'rprod_len')
# S is the set of all products of one or more rows of G, as rows on n bells
gen = declare('gen', (VVI, VVI, 'Int'), 'Bool')
def closed(S, G, r0): return [('generators', forall(1, lambda k: imp(rng(k, vlen(G)), smem(S, rprod(r0, vget(G, k)))), pats=lambda k: [[rprod(r0, vget(G, k))], [vget(G, k)]])),
    ('closed', forall([VI, 'Int'], lambda y, k: imp(conj(smem(S, y), rng(k, vlen(G))), smem(S, rprod(y, vget(G, k)))), pats=lambda y, k: [[rprod(y, vget(G, k))]])),
    ('generated', forall([VI], lambda y: imp(smem(S, y), reach(G, r0, y)), pats=lambda y: [[slo(S, y)], [shi(S, y)]]))]

def smem_all(L, sets, r): return slo(L.vec(sets[0]), r)
def gg_inv(L):
    c = L.c; G = c[2]; r0 = c[1]
    sets = [v for v in L.vecs if v[2] is not None and v[2].strip().tmpl == 'std::set']
    stk = [v for v in L.mvecs if v[2] is not None and v[2].strip().tmpl == 'std::vector' and L.vec(v).sort == VVI]
    rows = [v for v in L.vecs if L.vec(v).sort == VI and not L.modified(v[1])]
    its = [L.int(p) for p in L.mints]
    yield 'start', reach(G, r0, r0)
    for r in rows:
        for x in stk: yield 'reached %s' % r[0], disj(reach(G, r0, L.vec(r)), mk_not(mention(smem_all(L, sets, L.vec(r)))), mk_not(mention(vmem(L.vec(x), L.vec(r)))))
    for s in sets:
        S = L.vec(s)
        yield 'generated', forall([VI], lambda y: imp(smem(S, y), reach(G, r0, y)), pats=lambda y: [[slo(S, y)], [shi(S, y)]])
        for x in stk:
            X = L.vec(x); known = lambda y: disj(smem(S, y), eq(y, r0))
            yield 'waiting %s' % x[0], forall([VI], lambda y: imp(vmem(X, y), known(y)), pats=lambda y: [[vmem(X, y)]])
            yield 'done %s' % x[0], forall([VI, 'Int'], lambda y, k: imp(conj(known(y), rng(k, vlen(G))), disj(smem(S, rprod(y, vget(G, k))), vmem(X, y))), pats=lambda y, k: [[rprod(y, vget(G, k))]])
            for r in rows:
                R = L.vec(r)
                for i in its:
                    yield 'done but %s %s' % (x[0], r[0]), forall([VI, 'Int'], lambda y, k: imp(conj(known(y), rng(k, vlen(G))), disj(smem(S, rprod(y, vget(G, k))), vmem(X, y), conj(eq(y, R), ge(k, i)))), pats=lambda y, k: [[rprod(y, vget(G, k))]])
        for r in rows:
            for x in stk: yield 'current %s' % r[0], disj(smem(S, L.vec(r)), eq(L.vec(r), r0), mk_not(mention(vmem(L.vec(x), L.vec(r)))))
contract('generate_group(std::set<row> &, const row &, const std::vector<row> &)', prop='C14', terminates=False, inv=[gg_inv], nolemmas=OPAQUE,
    requires=lambda c: [eq(vlen(c[0]), 0)],
    ensures=lambda c: closed(c.post(0), c[2], c[1]) + [('m', mention(declare('gen', (VVI, VVI, 'Int'), 'Bool')(c.post(0), c[2], vlen(c[1]))))])

# ---- what a generated group is ------------------------------------------------------------------
wy = declare('gen_y', (VVI, VVI, 'Int'), VI); wz = declare('gen_z', (VVI, VVI, 'Int'), VI)
wk = [declare('gen_k%d' % i, (VVI, VVI, 'Int'), 'Int') for i in range(4)]
R0 = lambda n: rounds(n)
def _gi(S, G, n):
    k = [f(S, G, n) for f in wk]; y, z = wy(S, G, n), wz(S, G, n)
    return imp(conj(srt(S), ge(n, 0), ge(vlen(G), 1)), disj(gen(S, G, n),
        conj(smem(S, y), rng(k[0], vlen(G)), mk_not(smem(S, rprod(y, vget(G, k[0]))))),
        conj(rng(k[1], vlen(G)), mk_not(smem(S, rprod(R0(n), vget(G, k[1]))))),
        conj(smem(S, z), mk_not(reach(G, R0(n), z))),
        conj(rng(k[2], vlen(G)), disj(gt(vlen(vget(G, k[2])), n), mk_not(perm(vget(G, k[2])))))))
A('gen_intro', forall([VVI, VVI, 'Int'], _gi, pats=lambda S, G, n: [[gen(S, G, n)]]), ['gen'], 'definition')
A('gen_gens', forall([VVI, VVI, 'Int', 'Int'], lambda S, G, n, k: imp(conj(gen(S, G, n), rng(k, vlen(G))), conj(smem(S, rprod(R0(n), vget(G, k))), le(vlen(vget(G, k)), n))), pats=lambda S, G, n, k: [[gen(S, G, n), vget(G, k)]]), ['gen'], 'definition')
A('gen_closed', forall([VVI, VVI, 'Int', VI, 'Int'], lambda S, G, n, y, k: imp(conj(gen(S, G, n), rng(k, vlen(G)), smem(S, y)), smem(S, rprod(y, vget(G, k)))), pats=lambda S, G, n, y, k: [[gen(S, G, n), rprod(y, vget(G, k))]]), ['gen'], 'definition')
A('gen_only', forall([VVI, VVI, 'Int', VI], lambda S, G, n, y: imp(conj(gen(S, G, n), smem(S, y)), conj(reach(G, R0(n), y), eq(vlen(y), n))), pats=lambda S, G, n, y: [[gen(S, G, n), slo(S, y)], [gen(S, G, n), shi(S, y)]]), ['gen'], 'definition')
A('gen_len', forall([VVI, VVI, 'Int', 'Int'], lambda S, G, n, k: imp(conj(gen(S, G, n), rng(k, vlen(S))), eq(vlen(vget(S, k)), n)), pats=lambda S, G, n, k: [[gen(S, G, n), vget(S, k)]]), ['gen'], 'definition')
A('gen_nonempty', forall([VVI, VVI, 'Int'], lambda S, G, n: imp(gen(S, G, n), conj(srt(S), ge(n, 0), ge(vlen(G), 1))), pats=lambda S, G, n: [[gen(S, G, n)]]), ['gen'], 'definition')
# theorems: the products of permutations of n bells are finitely many, so they include rounds and the inverses
A('gen_rounds', forall([VVI, VVI, 'Int'], lambda S, G, n: imp(gen(S, G, n), smem(S, R0(n))), pats=lambda S, G, n: [[gen(S, G, n)]]), ['gen'])
A('gen_mul', forall([VVI, VVI, 'Int', VI, VI], lambda S, G, n, x, y: imp(conj(gen(S, G, n), smem(S, x), smem(S, y)), smem(S, rprod(x, y))), pats=lambda S, G, n, x, y: [[gen(S, G, n), rprod(x, y)]]), ['gen'])
A('gen_inv', forall([VVI, VVI, 'Int', VI], lambda S, G, n, x: imp(conj(gen(S, G, n), smem(S, x)), smem(S, rinv(x))), pats=lambda S, G, n, x: [[gen(S, G, n), rinv(x)]]), ['gen'])
# lists of generators with the same rows generate the same group
ws = declare('gen_same', (VVI, VVI), VI)
A('gen_same', forall([VVI, VVI, VVI, 'Int'], lambda S, U, G, n: imp(conj(gen(S, U, n), ge(vlen(G), 1)), disj(gen(S, G, n), conj(inv_(U, ws(U, G)), mk_not(inv_(G, ws(U, G)))), conj(inv_(G, ws(U, G)), mk_not(inv_(U, ws(U, G)))))), pats=lambda S, U, G, n: [[gen(S, U, n), gen(S, G, n)]]), ['gen'])

GB = lambda g: F(g, 'b'); GV = lambda g: F(g, 'v')
def isgroup(g, G, n):
    v = GV(g)
    return [('stage', eq(GB(g), n)), ('generated', gen(v, G, n)), ('rounds is in it', smem(v, rounds(n))), ('in order, each once', srt(v)),
            ('the generators', allk(vlen(G), lambda k: smem(v, rprod(rounds(n), vget(G, k))), lambda k: [vget(G, k)])),
            ('products', forall([VI, VI], lambda x, y: imp(conj(smem(v, x), smem(v, y)), smem(v, rprod(x, y))), pats=lambda x, y: [[rprod(x, y)]])),
            ('inverses', forall([VI], lambda x: imp(smem(v, x), smem(v, rinv(x))), pats=lambda x: [[rinv(x)]]))]
def sameb(g): return [conj(le(0, GB(g)), le(GB(g), 256)), allk(vlen(GV(g)), lambda k: eq(vlen(vget(GV(g), k)), GB(g)), lambda k: [vget(GV(g), k)])]
contract('group::calc_orbit_space() const', prop='C14', mutates=True, terminates=True, requires=lambda c: sameb(c.this), ensures=lambda c: [('elements stay', conj(eq(GV(c.this1), GV(c.this)), eq(GB(c.this1), GB(c.this))))])
contract('group::group(const row &)', prop='C14', nolemmas=OPAQUE, ensures=lambda c: isgroup(c.this1, vlit(VI, [c[0]]), vlen(c[0])))
contract('group::group(const row &, const row &)', prop='C14', nolemmas=OPAQUE, ensures=lambda c: isgroup(c.this1, vlit(VI, [c[0], c[1]]), mx(vlen(c[0]), vlen(c[1]))),
    exitghost=lambda c: mention(gen(GV(c.this1), vlit(VI, [c[0]]), mx(vlen(c[0]), vlen(c[1])))))
def gv_inv(L):
    b = [p for p in L.ints]
    for p in L.mints:
        for v in L.vecs:
            V = L.vec(v)
            if V.sort != VVI or L.modified(v[1]): continue
            for q in L.ints:
                if q is p: continue
                yield 'few %s' % q.name, rng(L.int(q), 257)
                yield 'longest %s %s %s' % (p.name, v[0], q.name), allk(L.int(p), lambda k: le(vlen(vget(V, k)), L.int(q)), lambda k: [vget(V, k)])
contract('group::group(const std::vector<row> &)', prop='C14', inv=[gv_inv], nolemmas=OPAQUE,
    ensures=lambda c: [('no generators', imp(eq(vlen(c[0]), 0), conj(eq(GB(c.this1), 0), eq(GV(c.this1), vlit(VI, [E0])))))] +
        [(l, imp(ge(vlen(c[0]), 1), g)) for l, g in isgroup(c.this1, c[0], GB(c.this1))])
contract('group::trivial(int)', prop='C14', requires=lambda c: [le(0, c[0]), le(c[0], 256)], ensures=lambda c: isgroup(c.result, vlit(VI, [rounds(c[0])]), c[0]))
contract('operator==(const group &, const group &)', prop='C14', ensures=lambda c: eq(c.result, conj(eq(GB(c[0]), GB(c[1])), eq(GV(c[0]), GV(c[1])))))
contract('operator!=(const group &, const group &)', prop='C14', ensures=lambda c: eq(c.result, mk_not(conj(eq(GB(c[0]), GB(c[1])), eq(GV(c[0]), GV(c[1]))))))
contract('group::swap(group &)', prop='C14', alias=[0], ensures=lambda c: [('this', eq(c.this1, c[0])), ('other', eq(c.post(0), c.this))])
contract('group::bells() const', prop='C14', ensures=lambda c: eq(c.result, GB(c.this)))
contract('group::size() const', prop='C14', ensures=lambda c: eq(c.result, vlen(GV(c.this))))

# ---- conjugates, even elements --------------------------------------------------------------------
rconj = lambda x, r: rprod(rprod(rinv(r), x), r)
vconj = declare('vconj', (VVI, VI, 'Int'), VVI)            # the conjugates of the first k elements
A('vconj_0', forall([VVI, VI], lambda v, r: eq(vconj(v, r, 0), vempty(VI)), pats=lambda v, r: [[vconj(v, r, 0)]]), ['vconj'], 'definition')
A('vconj_s', forall([VVI, VI, 'Int', 'Int'], lambda v, r, k, m: imp(conj(le(0, k), eq(m, add(k, 1))), eq(vconj(v, r, m), vpush(vconj(v, r, k), rconj(vget(v, k), r)))), pats=lambda v, r, k, m: [[vconj(v, r, k), vconj(v, r, m)]]), ['vconj'], 'definition')
vevens = declare('vevens', (VVI, 'Int'), VVI)              # the even ones among the first k elements
iseven = lambda x: eq(mod(sub(vlen(x), nlead(x, vlen(x))), 2), 0)
A('vevens_0', forall([VVI], lambda v: eq(vevens(v, 0), vempty(VI)), pats=lambda v: [[vevens(v, 0)]]), ['vevens'], 'definition')
A('vevens_s', forall([VVI, 'Int', 'Int'], lambda v, k, m: imp(conj(le(0, k), eq(m, add(k, 1))), eq(vevens(v, m), ite(iseven(vget(v, k)), vpush(vevens(v, k), vget(v, k)), vevens(v, k)))), pats=lambda v, k, m: [[vevens(v, k), vevens(v, m)]]), ['vevens'], 'definition')
def list_inv(f, n=None):
    def g(L):
        for v in L.mvecs:
            V = L.vec(v)
            if V.sort == VVI and n: yield 'bells %s' % v[0], allk(vlen(V), lambda k: eq(vlen(vget(V, k)), n(L.c)), lambda k: [vget(V, k)])
        for p in L.mints:
            i = L.int(p)
            yield 'm ' + p.name, mention(f(L.c, add(i, 1)))
            for v in L.mvecs:
                if L.vec(v).sort == VVI: yield 'list %s %s' % (v[0], p.name), eq(L.vec(v), f(L.c, i))
    return g
contract('group::conjugate(const row &) const', prop='C14', nolemmas=COS, inv=[list_inv(lambda c, k: vconj(GV(c.this), c[0], k), lambda c: mx(GB(c.this), vlen(c[0])))], requires=lambda c: sameb(c.this),
    ensures=lambda c: [('stage', eq(GB(c.result), mx(GB(c.this), vlen(c[0])))), ('elements', eq(GV(c.result), stl.vsort(vconj(GV(c.this), c[0], vlen(GV(c.this))))))])
contract('group::even_subgroup() const', prop='C14', nolemmas=OPAQUE, inv=[list_inv(lambda c, k: vevens(GV(c.this), k), lambda c: GB(c.this))], requires=lambda c: sameb(c.this),
    ensures=lambda c: [('stage', eq(GB(c.result), GB(c.this))), ('elements', eq(GV(c.result), stl.vsort(vevens(GV(c.this), vlen(GV(c.this))))))])

# ---- cosets -----------------------------------------------------------------------------------------
def least(c, f):
    """the result is the least of the rows f(k)"""
    v = GV(c.this)
    return [('in the coset', exists(1, lambda k: conj(rng(k, vlen(v)), eq(c.result, f(k))), pats=lambda k: [[vget(v, k)]])),
            ('the least', allk(vlen(v), lambda k: mk_not(stl.lexlt(f(k), c.result)), lambda k: [vget(v, k)]))]
def coset_inv(f):
    def g(L):
        c = L.c; v = GV(c.this)
        for p in L.mints:
            i = L.int(p)
            for w in L.mvecs:
                W = L.vec(w)
                if W.sort != VI: continue
                yield 'one of them %s %s' % (w[0], p.name), disj(eq(i, 0), exists(1, lambda k: conj(rng(k, i), eq(W, f(c, k))), pats=lambda k: [[vget(v, k)]]))
                yield 'empty %s %s' % (w[0], p.name), imp(eq(i, 0), eq(vlen(W), 0))
                yield 'length %s %s' % (w[0], p.name), imp(ge(i, 1), ge(vlen(W), 1))
                yield 'least %s %s' % (w[0], p.name), allk(i, lambda k: mk_not(stl.lexlt(f(c, k), W)), lambda k: [vget(v, k)])
    return g
same_stage = lambda c: [ge(vlen(GV(c.this)), 1), disj(ge(vlen(c[0]), 1), allk(vlen(GV(c.this)), lambda k: ge(vlen(vget(GV(c.this), k)), 1), lambda k: [vget(GV(c.this), k)]))]
lc = lambda c, k: rprod(c[0], vget(GV(c.this), k)); rc_ = lambda c, k: rprod(vget(GV(c.this), k), c[0])
contract('group::lcoset_label(const row &) const', prop='C14', nolemmas=COS, requires=same_stage, inv=[coset_inv(lc)], ensures=lambda c: least(c, lambda k: lc(c, k)))
contract('group::rcoset_label(const row &) const', prop='C14', nolemmas=COS, requires=lambda c: same_stage(c) + [lt(vlen(GV(c.this)), 6)], inv=[coset_inv(rc_)],
    ensures=lambda c: [('trivial group', imp(eq(vlen(GV(c.this)), 1), eq(c.result, c[0])))] + [(l, imp(ge(vlen(GV(c.this)), 2), g)) for l, g in least(c, lambda k: rc_(c, k))])

# ---- the standard groups ----------------------------------------------------------------------------
from .core import pbrow, F_rev, C_, MAXROW, MAXCH
III = ('Int', 'Int', 'Int')
cycrow = declare('cycrow', III, VI)                        # bells h.. of n, moved on by j places
A('cycrow_len', forall(list(III), lambda n, h, j: imp(ge(n, 0), eq(vlen(cycrow(n, h, j)), n)), pats=lambda n, h, j: [[cycrow(n, h, j)]]), ['cycrow'], 'definition')
A('cycrow_get', forall(['Int'] * 4, lambda n, h, j, k: imp(ge(n, 0), eq(vget(cycrow(n, h, j), k), ite(mk_not(rng(k, n)), 0, ite(lt(k, h), k, add(h, mod(add(sub(k, h), j), sub(n, h))))))), pats=lambda n, h, j, k: [[vget(cycrow(n, h, j), k)]]), ['cycrow'], 'definition')
revrow = declare('revrow', III, VI)                        # bells h..h+w-1 of n reversed
A('revrow_len', forall(list(III), lambda w, h, n: imp(ge(n, 0), eq(vlen(revrow(w, h, n)), n)), pats=lambda w, h, n: [[revrow(w, h, n)]]), ['revrow'], 'definition')
A('revrow_get', forall(['Int'] * 4, lambda w, h, n, k: imp(ge(n, 0), eq(vget(revrow(w, h, n), k), ite(rng(k, n), F_rev(w, h, k), 0))), pats=lambda w, h, n, k: [[vget(revrow(w, h, n), k)]]), ['revrow'], 'definition')
def extend(key, lemma):
    old = C_[key].ensures
    C_[key].ensures = lambda c: (lambda o: o if isinstance(o, list) else [o])(old(c)) + [lemma(c)]
extend('row::cyclic(int, int, int)', lambda c: ('is cycrow', eq(c.result, cycrow(c[0], c[1], c[2]))))
extend('row::reverse_rounds(int, int, int)', lambda c: ('is revrow', eq(c.result, revrow(c[0], c[1], ite(eq(c[2], 0), add(c[0], c[1]), c[2])))))
def named(c): return [le(0, c[0]), le(0, c[1]), le(add(c[0], c[1]), MAXCH), disj(eq(c[2], 0), le(add(c[0], c[1]), c[2])), le(c[2], MAXCH)]
nt = lambda c: ite(eq(c[2], 0), add(c[0], c[1]), c[2])
contract('group::cyclic_c(int, int, int)', prop='C14', nolemmas=OPAQUE, requires=named, ensures=lambda c: isgroup(c.result, vlit(VI, [cycrow(add(c[0], c[1]), c[1], 1), rounds(nt(c))]), nt(c)))
contract('group::cyclic_r(int, int, int)', prop='C14', nolemmas=OPAQUE, requires=named, ensures=lambda c: isgroup(c.result, vlit(VI, [pbrow(add(c[0], c[1]), c[1]), rounds(nt(c))]), nt(c)))
contract('group::dihedral_c(int, int, int)', prop='C14', nolemmas=OPAQUE, requires=named, ensures=lambda c: isgroup(c.result, vlit(VI, [cycrow(add(c[0], c[1]), c[1], 1), revrow(c[0], c[1], nt(c))]), nt(c)))
contract('group::direct_product(const group &, const group &)', prop='C14', nolemmas=COS, requires=lambda c: sameb(c[0]) + sameb(c[1]) + [le(add(GB(c[0]), GB(c[1])), 256), ge(vlen(GV(c[0])), 1)],
    ensures=lambda c: isgroup(c.result, stl.vcat(GV(c[0]), stl.vsort(vconj(GV(c[1]), cycrow(add(GB(c[0]), GB(c[1])), 0, sub(0, GB(c[0]))), vlen(GV(c[1]))))), GB(c.result)))
