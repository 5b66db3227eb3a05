"""Contracts of ringing/proof.h, proof.cpp: proving touches."""
from cppv.terms import *
from cppv.terms import mangle
from cppv.contract import *
from cppv.prove import LIB
from cppv.vals import LIM
from cppv import vals, stl
from .lib import allk

P = 'ringing::prover'; HP_ = 'heap.' + P
VR = ('Vec', 'Int')
_st = {}
def S():
    """functions on the heap of provers (defined once the classes are known)"""
    if _st: return _st
    hs = ('Vec', ('Rec', P))
    cc = declare('chaincount', (hs, 'Int', VR), 'Int'); cs = declare('chainsize', (hs, 'Int'), 'Int')
    wf = declare('chainwf', (hs,), 'Bool'); dep = declare('chaindepth', (hs, 'Int'), 'Int'); ch = declare('chainat', (hs, 'Int', 'Int'), 'Int')
    nxt = lambda h, i: F(vget(h, i), 'chain', 'ptr')
    cnt = lambda h, i, r: sub(HI(F(vget(h, i), 'm'), r), LO(F(vget(h, i), 'm'), r))
    A = LIB.add
    # the chain of provers ends; all functions along it are defined by recursion on its length
    A('chain_depth', forall([hs, 'Int'], lambda h, i: imp(wf(h), conj(le(0, dep(h, i)), imp(ne(i, 0), lt(dep(h, nxt(h, i)), dep(h, i))))), pats=lambda h, i: [[dep(h, i), vget(h, i)]]), ['chaindepth'], 'definition')
    A('cc_0', forall([hs, VR], lambda h, r: imp(wf(h), eq(cc(h, 0, r), 0)), pats=lambda h, r: [[cc(h, 0, r)]]), ['chaincount'], 'definition')
    A('cc_s', forall([hs, 'Int', VR], lambda h, i, r: imp(conj(wf(h), ne(i, 0)), eq(cc(h, i, r), add(cnt(h, i, r), cc(h, nxt(h, i), r)))), pats=lambda h, i, r: [[cc(h, i, r), vget(h, i)]]), ['chaincount'], 'definition')
    A('cs_0', forall([hs], lambda h: imp(wf(h), eq(cs(h, 0), 0)), pats=lambda h: [[cs(h, 0)]]), ['chainsize'], 'definition')
    A('cs_s', forall([hs, 'Int'], lambda h, i: imp(conj(wf(h), ne(i, 0)), eq(cs(h, i), add(vlen(F(vget(h, i), 'm')), cs(h, nxt(h, i))))), pats=lambda h, i: [[cs(h, i), vget(h, i)]]), ['chainsize'], 'definition')
    A('ch_0', forall([hs, 'Int'], lambda h, t: eq(ch(h, t, 0), t), pats=lambda h, t: [[ch(h, t, 0)]]), ['chainat'], 'definition')
    A('ch_s', forall([hs, 'Int', 'Int'], lambda h, t, k: imp(le(0, k), eq(ch(h, t, add(k, 1)), nxt(h, ch(h, t, k)))), pats=lambda h, t, k: [[ch(h, t, k), vget(h, ch(h, t, k))]]), ['chainat'], 'definition')
    _st.update(cc=cc, cs=cs, wf=wf, dep=dep, ch=ch, nxt=nxt, cnt=cnt)
    return _st
MM = None
def fns():
    global MM
    if MM is None: MM = stl.tree_fns(find_field(P, 'm'))
    return MM
_types = {}
def find_field(rec, f): return _types[rec, f]
def LO(v, r): return fns()[1](v, r)
def HI(v, r): return fns()[2](v, r)
def F(x, *path):
    for p in path: x = recget(x, p)
    return x
def late(types):
    """types: the C++ record types of the program, by name"""
    t = types.get(P)
    if t is None: return
    for k, ft, i in vals.comps(t): _types[P, k] = ft
    mt = _types[P, 'm']
    for n in ('std::_Rb_tree_iterator<std::pair<const ringing::row, int>>', 'std::_Rb_tree_const_iterator<std::pair<const ringing::row, int>>'):
        vals.ITER_HOME[n] = (t, 'm', mt)
    _types['failinfo'] = _types[P, 'fi'].to
    vals.sort_of(t); fns(); S()

H = lambda c: c.heap(HP_)
def tid(c): return c._this.path[0][1]
def me(c): return vget(H(c), tid(c))
def bounded(c, r=None):
    s = S(); h = H(c)
    out = [s['wf'](h)]
    if r is not None: out.append(forall(1, lambda i: conj(le(0, s['cc'](h, i, r)), le(s['cc'](h, i, r), LIM)), pats=lambda i: [[s['cc'](h, i, r)]]))
    else: out.append(forall(1, lambda i: conj(le(0, s['cs'](h, i)), le(s['cs'](h, i), LIM)), pats=lambda i: [[s['cs'](h, i)]]))
    return out

def inv_count(f):
    def g(L):
        s = S(); h = H(L.c); t = tid(L.c); out = []
        hp = [p for p in L.ints if p.kind == 'hp']; ns = [p for p in L.mints if p.kind == 'val']
        for p in hp:
            for n in ns: out.append(('%s+rest %s' % (n.name, p.name), eq(add(L.int(n), f(L.c, h, L.int(p))), f(L.c, h, t))))
        return out
    return g
def var_depth(L):
    s = S(); h = H(L.c)
    return [('depth ' + p.name, s['dep'](h, L.int(p))) for p in L.ints if p.kind == 'hp']
contract('prover::count_row(const row &) const', heapthis=True, prop='C12',
    requires=lambda c: bounded(c, c[0]),
    ensures=lambda c: eq(c.result, S()['cc'](H(c), tid(c), c[0])),
    inv=[inv_count(lambda c, h, i: S()['cc'](h, i, c[0]))], variant=[var_depth])
contract('prover::size() const', heapthis=True, prop='C12',
    requires=lambda c: bounded(c),
    ensures=lambda c: eq(c.result, S()['cs'](H(c), tid(c))),
    inv=[inv_count(lambda c, h, i: S()['cs'](h, i))], variant=[var_depth])

# ---- adding and removing rows ------------------------------------------------------------
FL = 'heap.std::list<ringing::linedetail>'
U64 = 2**64
LD = ('Vec', ('Rec', 'ringing::linedetail'))
row_of = lambda x: recget(x, '_row'); lines_of = lambda x: recget(x, '_lines')
def SL():
    """functions on the lists of repeated rows"""
    s = S()
    if 'cl' in s: return s
    hs = ('Vec', ('Rec', P))
    cl = declare('chainlines', (hs, 'Int', VR), VR); lf = declare('linefind', (LD, VR), 'Int')
    cc, nxt, wf = s['cc'], s['nxt'], s['wf']
    A = LIB.add
    # the line numbers of the occurrences of a row, those of the end of the chain first
    A('cl_get', forall([hs, 'Int', VR, 'Int'], lambda h, i, r, k: imp(conj(wf(h), ne(i, 0), le(0, k), lt(k, cc(h, i, r))), eq(vget(cl(h, i, r), k),
        ite(lt(k, cc(h, nxt(h, i), r)), vget(cl(h, nxt(h, i), r), k), recget(vget(F(vget(h, i), 'm'), add(LO(F(vget(h, i), 'm'), r), sub(k, cc(h, nxt(h, i), r)))), 'second')))),
        pats=lambda h, i, r, k: [[vget(cl(h, i, r), k), vget(h, i)]]), ['chainlines'], 'definition')
    A('lf_rng', forall([LD, VR], lambda g, r: conj(le(0, lf(g, r)), imp(ge(vlen(g), 0), le(lf(g, r), vlen(g))), imp(lt(lf(g, r), vlen(g)), eq(row_of(vget(g, lf(g, r))), r))), pats=lambda g, r: [[lf(g, r)]]), ['linefind'], 'definition')
    A('lf_min', forall([LD, VR, 'Int'], lambda g, r, k: imp(conj(le(0, k), lt(k, lf(g, r))), ne(row_of(vget(g, k)), r)), pats=lambda g, r, k: [[lf(g, r), vget(g, k)]]), ['linefind'], 'definition')
    s.update(cl=cl, lf=lf)
    return s
def mm(c): return F(me(c), 'm')
def nocc(c): return S()['cc'](H(c), tid(c), c[0])       # occurrences so far, branches included
def fails(c, n): return conj(ne(F(me(c), 'max_occurs'), -1), gt(n, F(me(c), 'max_occurs')))
def b01(x): return ite(x, 1, 0)
def prover_req(c):
    s = SL(); x = me(c)
    return bounded(c, c[0]) + [le(-LIM, F(x, 'lineno')), le(F(x, 'lineno'), LIM),
        *inv_facts(G(c), _types['failinfo']), forall(1, lambda k: imp(conj(le(0, k), lt(k, vlen(G(c)))), ge(vlen(lines_of(vget(G(c), k))), 1)), pats=lambda k: [[vget(G(c), k)]])]
def fid(c): return F(me(c), 'fi')
def G(c): return vget(c.heap(FL), fid(c))
def G1(c): return vget(c.heap(FL, 'post'), fid(c))
def me1(c): return c.this1
def same_except(v, w, *ks):
    return forall(1, lambda k: imp(conj(*[ne(k, x) for x in ks]), eq(vget(w, k), vget(v, k))), pats=lambda k: [[vget(w, k)]])
def keeps(c, *fs): return [('keeps ' + '.'.join(f), eq(F(me1(c), *f), F(me(c), *f))) for f in fs]
KEPT = [('chain', 'ptr'), ('chain', 'rc'), ('chain', 'deletor'), ('max_occurs',), ('fi',)]

def rng_is(x, own, lo, hi):
    a = recget(x, 'first'); b = recget(x, 'second')
    return conj(eq(recget(a, 'own'), own), eq(recget(b, 'own'), own), eq(recget(a, 'pos'), lo), eq(recget(b, 'pos'), hi))
def inv_ranges(L):
    """while the ranges are collected: the last is that of *this, each earlier one that of the next prover of the chain"""
    c = L.c; s = SL(); h = H(c); t = tid(c); ch = s['ch']; out = []
    for v in L.vecs:
        if v[2] is None or not stl.has_iter(vals.sort_of(v[2])): continue
        w = L.vec(v); n = vlen(w)
        for p in L.mints:
            if p.kind == 'hp': out += [('at ' + p.name, eq(L.int(p), ch(h, t, n))), ('deeper ' + p.name, le(s['dep'](h, L.int(p)), sub(s['dep'](h, t), n)))]
        shifted = L.X.store.get(L.c._this.root) is not h
        if not shifted:
            out.append(('ranges ' + v[0], forall(1, lambda j: imp(conj(le(0, j), lt(j, n)), rng_is(vget(w, j), ch(h, t, sub(sub(n, 1), j)),
                LO(F(vget(h, ch(h, t, sub(sub(n, 1), j))), 'm'), c[0]), HI(F(vget(h, ch(h, t, sub(sub(n, 1), j))), 'm'), c[0]))), pats=lambda j: [[vget(w, j)]])))
            out.append(('not again', forall(1, lambda k: imp(conj(le(1, k), lt(k, n)), conj(ne(ch(h, t, k), t), ne(ch(h, t, k), 0))), pats=lambda k: [[ch(h, t, k)]])))
            out.append(('some', disj(ge(n, 1), eq(n, 0))))
    return out
def rangevec(L):
    for v in L.vecs:
        if v[2] is not None and stl.has_iter(vals.sort_of(v[2])): return v
def inv_sum(L):
    c = L.c; s = SL(); h = H(c); t = tid(c); out = []
    v = rangevec(L)
    if v is None: return out
    n = vlen(L.vec(v))
    for p in L.mints:
        if p.kind != 'ptr': continue
        i = L.int(p); at = s['ch'](h, t, sub(n, i))
        out.append(('m', mention(s['ch'](h, t, sub(sub(n, i), 1)))))
        for q in L.mints:
            if q.kind == 'val': out.append(('sum %s %s' % (q.name, p.name), eq(sub(L.int(q), L.int0(q)), s['cc'](h, at, c[0]))))
    return out
def inv_find(L):
    c = L.c; s = SL(); g = G(c)
    return [('not before ' + p.name, forall(1, lambda k: imp(conj(le(0, k), lt(k, L.int(p))), ne(row_of(vget(g, k)), c[0])), pats=lambda k: [[vget(g, k)]])) for p in L.mints if p.kind == 'ptr']
def mention(t):
    return declare('mention_' + mangle(t.sort), (t.sort,), 'Bool')(t)
def inv_lines(L):
    """the line numbers collected for a newly repeated row"""
    c = L.c; s = SL(); h = H(c); t = tid(c); r = c[0]; out = []
    v = rangevec(L); ls = [x for x in L.mvecs if x[2] is not None and vals.sort_of(x[2]) == VR and '_lines' in x[0]]
    if v is None or not ls: return out
    w = L.vec(v); n = vlen(w); x = L.vec(ls[0]); cc, ch, cl = s['cc'], s['ch'], s['cl']
    ptrs = [(p, L.X.read(p.lv)) for p in L.ints if p.kind == 'ptr']
    outer = [p for p, q in ptrs if q.c.root == v[1].root and q.i is not n][-1:]; inner = [p for p, q in ptrs if q.c.root == c._this.root and L.modified(p.lv)]
    ln1 = add(F(me(c), 'lineno'), 1); h1 = L.X.store.get(c._this.root)
    for p in outer:
        i = L.int(p); at = ch(h, t, sub(n, i)); a = cc(h, at, r); own = ch(h, t, sub(sub(n, i), 1))
        out.append(('m ' + p.name, mention(own)))
        before = forall(1, lambda k: imp(conj(le(0, k), lt(k, a)), eq(vget(x, k), vget(cl(h, at, r), k))), pats=lambda k: [[vget(x, k)]])
        if not inner:
            for bn, blv in L.bools:
                b = L.X.read(blv)
                out += [('len ' + bn, eq(vlen(x), add(a, ite(b, 1, 0)))), ('added ' + bn, imp(b, conj(eq(i, n), eq(vget(x, a), ln1)))),
                        ('all ' + bn, imp(eq(i, n), eq(b, lt(LO(mm(c), r), HI(mm(c), r)))))]
            out += [('lines', before), ('mcl', mention(vget(cl(h, own, r), 0)))]
        for q in inner:
            j = L.int(q); f0 = recget(recget(vget(w, i), 'first'), 'pos'); m1 = F(vget(h1, own), 'm')
            out += [('jrange', conj(le(f0, j), le(j, recget(recget(vget(w, i), 'second'), 'pos')))), ('jlen', eq(vlen(x), add(a, sub(j, f0)))), ('before', before),
                    ('jlines', forall(1, lambda k: imp(conj(le(a, k), lt(k, vlen(x))), eq(vget(x, k), recget(vget(m1, add(f0, sub(k, a))), 'second'))), pats=lambda k: [[vget(x, k)]]))]
            for bn, blv in L.bools: out.append(('jadded ' + bn, eq(L.X.read(blv), conj(eq(own, t), lt(LO(mm(c), r), HI(mm(c), r)), gt(j, HI(mm(c), r))))))
    return out
ADD = 'prover::add_row(const row &)'
def add_post(c):
    s = SL(); x = me(c); y = me1(c); m = mm(c); n = add(nocc(c), 1); r = c[0]; hi = HI(m, r); f = fails(c, n)
    e = ('Rec', 'std::pair<const ringing::row, int>')
    out = [('line number', eq(F(y, 'lineno'), add(F(x, 'lineno'), 1))),
           ('rows', eq(F(y, 'm'), stl.vcat(vpush(stl.vsub(m, 0, hi), mkrec(e[1], [r, add(F(x, 'lineno'), 1)])), stl.vsub(m, hi, sub(vlen(m), hi))))),
           ('duplicates', eq(F(y, 'dups'), mod(add(F(x, 'dups'), b01(gt(n, 1))), U64))),
           ('falseness', eq(F(y, 'falsec'), mod(add(F(x, 'falsec'), b01(f)), U64))),
           ('truth', eq(c.result, conj(eq(F(y, 'falsec'), 0), imp(conj(f, ne(fid(c), 0)), FALSE))))]
    f0, f1 = c.heap(FL), c.heap(FL, 'post'); i = fid(c); g, g1 = G(c), G1(c); j = s['lf'](g, r); told = conj(f, ne(i, 0)); old = conj(told, lt(j, vlen(g))); new = conj(told, ge(j, vlen(g)))
    x0, x1 = vget(g, j), vget(g1, j); l0, l1 = lines_of(x0), lines_of(x1); cl = s['cl'](H(c), tid(c), r); ln1 = add(F(x, 'lineno'), 1)
    out += [('other lists', same_except(f0, f1, i)), ('nothing told', imp(mk_not(told), eq(g1, g))),
            ('known row: list', imp(old, conj(eq(vlen(g1), vlen(g)), same_except(g, g1, j), eq(row_of(x1), row_of(x0)), eq(vlen(l1), add(vlen(l0), 1)), same_except(l0, l1, vlen(l0)), eq(vget(l1, vlen(l0)), ln1)))),
            ('new row: list', imp(new, conj(eq(vlen(g1), add(vlen(g), 1)), same_except(g, g1, vlen(g)), eq(row_of(vget(g1, vlen(g))), r)))),
            ('new row: lines', imp(new, (lambda l: conj(eq(vlen(l), n), allk(nocc(c), lambda k: eq(vget(l, k), vget(cl, k)), lambda k: [vget(l, k)]), eq(vget(l, nocc(c)), ln1)))(lines_of(vget(g1, vlen(g))))))]
    return out + keeps(c, *KEPT)
contract(ADD, heapthis=True, prop='C12', requires=prover_req, heap=(FL,), ensures=add_post, inv=[inv_ranges, inv_sum, inv_find, inv_lines], variant=[var_depth])

def rem_req(c):
    return prover_req(c)
def rem_post(c):
    s = SL(); x = me(c); y = me1(c); m = mm(c); n = nocc(c); r = c[0]; hi = HI(m, r); f = fails(c, n)
    out = [('line number', eq(F(y, 'lineno'), sub(F(x, 'lineno'), 1))),
           ('rows', eq(F(y, 'm'), stl.vcat(stl.vsub(m, 0, sub(hi, 1)), stl.vsub(m, hi, sub(vlen(m), hi))))),
           ('duplicates', eq(F(y, 'dups'), mod(sub(F(x, 'dups'), b01(gt(n, 1))), U64))),
           ('falseness', eq(F(y, 'falsec'), mod(sub(F(x, 'falsec'), b01(f)), U64)))]
    f0, f1 = c.heap(FL), c.heap(FL, 'post'); i = fid(c); g, g1 = G(c), G1(c); j = s['lf'](g, r); told = conj(f, ne(i, 0), lt(j, vlen(g)))
    drop = conj(told, le(sub(n, 1), F(x, 'max_occurs'))); keep = conj(told, gt(sub(n, 1), F(x, 'max_occurs')))
    x0, x1 = vget(g, j), vget(g1, j); l0, l1 = lines_of(x0), lines_of(x1)
    out += [('other lists', same_except(f0, f1, i)), ('nothing told', imp(mk_not(told), eq(g1, g))),
            ('no longer false: list', imp(drop, conj(eq(vlen(g1), sub(vlen(g), 1)), forall(1, lambda k: imp(conj(le(0, k), lt(k, vlen(g1))), eq(vget(g1, k), vget(g, ite(lt(k, j), k, add(k, 1))))), pats=lambda k: [[vget(g1, k)]])))),
            ('still false: list', imp(keep, conj(eq(vlen(g1), vlen(g)), same_except(g, g1, j), eq(row_of(x1), row_of(x0)), eq(vlen(l1), sub(vlen(l0), 1)), allk(vlen(l1), lambda k: eq(vget(l1, k), vget(l0, k)), lambda k: [vget(l1, k)]))))]
    return out + keeps(c, *KEPT)
contract('prover::remove_row(const row &)', heapthis=True, prop='C12', requires=rem_req, heap=(FL,), ensures=rem_post, inv=[inv_ranges, inv_sum, inv_find], variant=[var_depth],
    throws=[('std::logic_error', lambda c: eq(LO(mm(c), c[0]), HI(mm(c), c[0])))])

# ---- branches, and the small functions -----------------------------------------------------
HI_, LP, LI_ = 'heap.int', 'live.' + P, 'live.int'
def br_req(c):
    a = c[0]; p, rc = F(a, 'ptr'), F(a, 'rc')
    return [ge(p, 1), ge(rc, 1), eq(vget(c.heap(LP), p), 1), eq(vget(c.heap(LI_), rc), 1), le(1, vget(c.heap(HI_), rc)), le(vget(c.heap(HI_), rc), LIM)]
def br_post(c):
    a, r = c[0], c.result; q, rc, nrc = F(r, 'ptr'), F(a, 'rc'), F(r, 'rc'); h0, h1 = H(c), c.heap(HP_, 'post'); x, y = vget(h0, F(a, 'ptr')), vget(h1, q)
    return [('a new prover', conj(ge(q, 1), eq(vget(c.heap(LP), q), 0), eq(vget(c.heap(LP, 'post'), q), 1), same_except(c.heap(LP), c.heap(LP, 'post'), q))),
            ('no other prover changes', same_except(h0, h1, q)),
            ('one owner', conj(ge(nrc, 1), eq(vget(c.heap(LI_), nrc), 0), eq(vget(c.heap(LI_, 'post'), nrc), 1), eq(vget(c.heap(HI_, 'post'), nrc), 1), same_except(c.heap(LI_), c.heap(LI_, 'post'), nrc))),
            ('the chain is shared', conj(eq(F(y, 'chain'), a), eq(vget(c.heap(HI_, 'post'), rc), add(vget(c.heap(HI_), rc), 1)), same_except(c.heap(HI_), c.heap(HI_, 'post'), rc, nrc))),
            ('no rows of its own', eq(vlen(F(y, 'm')), 0))] + [('copies ' + f, eq(F(y, f), F(x, f))) for f in ('max_occurs', 'lineno', 'falsec', 'dups', 'fi')]
contract('prover::create_branch(const shared_pointer<prover> &)', prop='C12', requires=br_req, ensures=br_post, heap=(HP_, HI_, LP, LI_))
contract('prover::duplicates() const', heapthis=True, prop='C12', ensures=lambda c: eq(c.result, F(me(c), 'dups')))
contract('prover::truth() const', heapthis=True, prop='C12', ensures=lambda c: eq(c.result, eq(F(me(c), 'falsec'), 0)))
contract('prover::disable_proving()', heapthis=True, prop='C12', ensures=lambda c: [('m', eq(F(me1(c), 'max_occurs'), -1)), ('f', eq(F(me1(c), 'falsec'), 0))] + keeps(c, ('m',), ('dups',), ('lineno',), ('chain',), ('fi',)))
def fresh_prover(c, mx, fi):
    y = c.this1
    return [('nothing yet', conj(eq(F(y, 'lineno'), 0), eq(F(y, 'falsec'), 0), eq(F(y, 'dups'), 0), eq(vlen(F(y, 'm')), 0), eq(F(y, 'chain', 'ptr'), 0), eq(F(y, 'chain', 'rc'), 0))),
            ('limit', eq(F(y, 'max_occurs'), mx))] + ([('list', eq(F(y, 'fi'), 0))] if fi is None else [])
contract('prover::prover(int)', prop='C12', ensures=lambda c: fresh_prover(c, c[0], None))
contract('shared_pointer<prover>::operator->() const', prop='C12', ensures=lambda c: True) if 0 else None
