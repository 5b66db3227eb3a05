"""Contracts of ringing/pointers.h (C24), over an arbitrary class O that can be cloned and destroyed.

heap.O     the objects, by number (0 is the null pointer)          live.O   1 while allocated
heap.int   the cells that hold reference counts                     live.int 1 while allocated
heap.by    (ghost) the deletor that was last applied to an object

A deletor is known only to free the object it is given, exactly once; a cloner (and O::clone) only to return a
new object equal to the one given, or to throw."""
from cppv.terms import *
from cppv.contract import *
from cppv.contract import GHOST, _T
from cppv.exec import FPCALL, CxxThrow, INTT, ptrid
from cppv.vals import LIM, HP, RecVal, heap_lv, fnno

O = 'vinst::obj'
HO, LO_, HI_, LI_, BY = 'heap.' + O, 'live.' + O, 'heap.int', 'live.int', 'heap.by'
class _By(_T): pass
GHOST['by'] = _By(k='int', w=64, sg=1, s='by', isref=False, isint=True, tmpl=None, const=False, d={}, rec=None)
DEL = 'ringing::delete_helper<vinst::obj>::fn(vinst::obj *&)'
CLO = 'ringing::clone_helper<vinst::obj>::fn(vinst::obj *)'
BAD = 'std::bad_alloc'; EXC = 'std::exception'
f_ = recget

# ---- calls through pointers to functions that are not known
def rd(X, r, i): return X.read(r.index(i, INTT))
def call_deletor(X, f, tu, args):
    lv = X.lv(args[0]); p = X.read(lv); i = ptrid(p); t = GHOST['by']
    obj = lv.type.strip().to
    live = X.live(obj); X.heap(t); by = heap_lv(t, i)
    X.oblige(disj(eq(i, 0), eq(rd(X, live, i), 1)), 'only a live object is given to a deletor')
    if X.decide(ne(i, 0)):
        X.write(live.index(i, INTT), num(0)); X.write(by, f.id)
    x = X.freshvar('after', 'Int'); X.assume(le(0, x)); X.write(lv, HP(obj, x))
    return None
def call_cloner(X, f, tu, args):
    i = ptrid(X.rv(args[0])); obj = OT(X)
    live = X.live(obj)
    X.oblige(conj(ne(i, 0), eq(rd(X, live, i), 1)), 'only a live object is cloned')
    if X.decide(X.freshvar('throws', 'Bool')): raise CxxThrow(EXC, RecVal(EXC, {}))
    return new_clone(X, obj, i)
def new_clone(X, obj, i):
    live = X.live(obj); h = X.heap(obj); x = X.freshvar('clone', 'Int')
    X.assume(lt(0, x), eq(rd(X, live, x), 0))
    v = X.read(heap_lv(obj, i))
    X.write(live.index(x, INTT), num(1)); X.write(heap_lv(obj, x), v)
    return HP(obj, x)
def OT(X):
    from cppv.contract import find_type
    return find_type(X, O)
FPCALL['void (vinst::obj *&)'] = call_deletor
FPCALL['vinst::obj *(vinst::obj *)'] = call_cloner

# ---- what the state looks like, before and after
class St:
    def __init__(self, c):
        self.o, self.lo, self.i, self.li, self.by = [c.heap(r) for r in (HO, LO_, HI_, LI_, BY)]
def post(c): 
    s = St.__new__(St); s.o, s.lo, s.i, s.li, s.by = [c.heap(r, 'post') for r in (HO, LO_, HI_, LI_, BY)]; return s
ALLH = (HO, LO_, HI_, LI_, BY)
def live(s, p): return eq(vget(s.lo, p), 1)
def ptr(x): return f_(x, 'ptr')
def rc(x): return f_(x, 'rc')
def de(x): return f_(x, 'deletor')
def cl(x): return f_(x, 'cloner')
def same(c, **kw):
    """the state afterwards: every component as before but for the given ones"""
    a, b = St(c), post(c)
    return [('state: ' + n, eq(getattr(b, n), kw.get(n, getattr(a, n)))) for n in ('o', 'lo', 'i', 'li', 'by')]
def when(cond, v, w): return ite(cond, w, v) if v is not w else v
def freed(s, p, d, cond=TRUE):
    """object p given to deletor d"""
    k = conj(cond, ne(p, 0))
    return dict(lo=when(k, s.lo, vset(s.lo, p, 0)), by=when(k, s.by, vset(s.by, p, d)))
def eqs(v, w, k): return eq(v, w)

# ================================================================ shared_pointer
def ok(s, x, lim=LIM + 1):
    """a shared pointer that is either empty or one of the owners of its object"""
    return [imp(eq(rc(x), 0), eq(ptr(x), 0)), ge(rc(x), 0), ge(ptr(x), 0), imp(ne(rc(x), 0), conj(ne(de(x), 0), eq(vget(s.li, rc(x)), 1), le(1, vget(s.i, rc(x))), (TRUE if lim is None else le(vget(s.i, rc(x)), lim)), imp(ne(ptr(x), 0), live(s, ptr(x)))))]
def okdo(c): return ok(St(c), c.this)
S_ = 'shared_pointer<vinst::obj>::'
def same_but(v, w, *ks):
    return forall(1, lambda k: imp(conj(*[ne(k, x) for x in ks]), eq(vget(w, k), vget(v, k))), pats=lambda k: [[vget(w, k)]])
def fresh_cell(a, b, r, n=1, also=()):
    """r is a new cell that holds n"""
    return [('a new count', conj(ge(r, 1), eq(vget(a.li, r), 0), eq(vget(b.li, r), 1), eq(vget(b.i, r), n))), ('other cells live as before', same_but(a.li, b.li, r)), ('other counts', same_but(a.i, b.i, r, *also))]
def new_shared(c, d):
    a, b = St(c), post(c); y = c.this1
    return [('object', eq(ptr(y), c[0])), ('deletor', eq(de(y), d)), ('objects', eq(b.o, a.o)), ('live', eq(b.lo, a.lo)), ('nothing deleted', eq(b.by, a.by))] + fresh_cell(a, b, rc(y))
def gone(c, p):
    """nothing changes but that object p is freed"""
    a, b = St(c), post(c)
    return [('objects', eq(b.o, a.o)), ('freed', eq(b.lo, when(ne(p, 0), a.lo, vset(a.lo, p, 0)))), ('counts', eq(b.i, a.i)), ('cells', eq(b.li, a.li))]
def livearg(c, p): return [disj(eq(p, 0), live(St(c), p)), ge(p, 0)]
fn1 = fnno(DEL); fn2 = fnno(CLO)
contract(S_ + 'shared_pointer(vinst::obj *, void (*)(vinst::obj *&))', prop='C24', requires=lambda c: livearg(c, c[0]) + [ne(c[1], 0)], heap=ALLH, maythrow=[BAD], ensures=lambda c: new_shared(c, c[1]), xensures=lambda c: gone(c, c[0]))
contract(S_ + 'shared_pointer(vinst::obj *)', prop='C24', requires=lambda c: livearg(c, c[0]), heap=ALLH, maythrow=[BAD], ensures=lambda c: new_shared(c, fn1), xensures=lambda c: gone(c, c[0]))
contract(S_ + 'shared_pointer()', prop='C24', heap=(), ensures=lambda c: [('empty', conj(eq(ptr(c.this1), 0), eq(rc(c.this1), 0)))])
def letgo(c, x, s=None):
    """an owner x lets go: the state afterwards"""
    s = s or St(c); r = rc(x); n = vget(s.i, r); some = ne(r, 0); last = conj(some, eq(n, 1))
    return dict(i=when(some, s.i, vset(s.i, r, sub(n, 1))), li=when(last, s.li, vset(s.li, r, 0)), **freed(s, ptr(x), de(x), last))
contract(S_ + '~shared_pointer()', prop='C24', requires=okdo, heap=ALLH, ensures=lambda c: same(c, **letgo(c, c.this)))
def shares(c):
    s = St(c); r = rc(c[0]); y = c.this1
    return [('same object', conj(eq(ptr(y), ptr(c[0])), eq(rc(y), r), imp(ne(r, 0), eq(de(y), de(c[0])))))] + same(c, i=when(ne(r, 0), s.i, vset(s.i, r, add(vget(s.i, r), 1))))
contract(S_ + 'shared_pointer(const shared_pointer<vinst::obj> &)', prop='C24', requires=lambda c: ok(St(c), c[0], LIM), heap=ALLH, ensures=shares)
contract(S_ + 'swap(shared_pointer<vinst::obj> &)', prop='C24', heap=(), alias=[0], ensures=lambda c: [('this', eq(c.this1, c[0])), ('other', eq(c.post(0), c.this))])
def assigned(c):
    s = St(c); x, o = c.this, c[0]; r, q = rc(x), rc(o); self_ = eq(r, q)
    i1 = when(ne(q, 0), s.i, vset(s.i, q, add(vget(s.i, q), 1)))
    t = St.__new__(St); t.o, t.lo, t.i, t.li, t.by = s.o, s.lo, i1, s.li, s.by
    g = letgo(c, x, t)
    return [('this', conj(eq(ptr(c.this1), ptr(o)), eq(rc(c.this1), q), imp(ne(q, 0), eq(de(c.this1), de(o)))))] + same(c, **g) + \
        [('still owned', imp(ne(ptr(o), 0), live(post(c), ptr(o)))), ('still counted', imp(ne(q, 0), conj(eq(vget(post(c).li, q), 1), eq(vget(post(c).i, q), when(self_, add(vget(s.i, q), 1), vget(s.i, q))))))]
def apart(c):
    """different counts mean different objects"""
    return [imp(conj(ne(rc(c.this), rc(c[0])), ne(ptr(c.this), 0)), ne(ptr(c.this), ptr(c[0])))]
contract(S_ + 'operator=(const shared_pointer<vinst::obj> &)', prop='C24', alias=[0], requires=lambda c: okdo(c) + ok(St(c), c[0], LIM) + apart(c), heap=ALLH, ensures=assigned)
def reset_post(c):
    s, b = St(c), post(c); x, y = c.this, c.this1; r = rc(x); n = vget(s.i, r); some = ne(r, 0); last = conj(some, eq(n, 1)); noop = eq(ptr(x), c[0])
    f = freed(s, ptr(x), de(x), last); more = conj(mk_not(noop), mk_not(last)); re = conj(mk_not(noop), last)
    out = [('this', eq(ptr(y), c[0])), ('nothing to do', imp(noop, conj(eq(y, x), eq(b.lo, s.lo), eq(b.i, s.i), eq(b.li, s.li), eq(b.by, s.by)))),
           ('its objects are deleted by delete', imp(mk_not(noop), eq(de(y), fn1))), ('objects', eq(b.o, s.o)),
           ('last: freed', imp(re, eq(b.lo, f['lo']))), ('last: by its deletor', imp(re, eq(b.by, f['by']))), ('last: count', imp(re, conj(eq(rc(y), r), eq(b.i, vset(s.i, r, 1)), eq(b.li, s.li)))),
           ('not last: nothing freed', imp(more, conj(eq(b.lo, s.lo), eq(b.by, s.by)))), ('not last: the others keep it', imp(conj(more, some), eq(vget(b.i, r), sub(n, 1))))]
    return out + [(l, imp(more, g)) for l, g in fresh_cell(s, b, rc(y), 1, (r,))]
contract(S_ + 'reset(vinst::obj *)', prop='C24', requires=lambda c: okdo(c) + livearg(c, c[0]), heap=ALLH, maythrow=[BAD], ensures=reset_post,
    xensures=lambda c: gone(c, c[0]) + [('this', eq(c.this1, c.this))])
for cls in ('shared', 'scoped', 'cloning', 'cow'):
    C = cls + '_pointer<vinst::obj>::'; TY = cls + '_pointer<vinst::obj>'
    contract(C + 'get() const', prop='C24', ensures=lambda c: eq(c.result, ptr(c.this)))
    contract(C + 'operator->() const', prop='C24', ensures=lambda c: eq(c.result, ptr(c.this)))
    contract(C + 'operator*() const', prop='C24', requires=lambda c: ne(ptr(c.this), 0), ret_ref='none', ensures=lambda c: eq(c.result, vget(c.heap(HO), ptr(c.this))))
    contract(C + 'operator==(const %s &) const' % TY, prop='C24', ensures=lambda c: eq(c.result, eq(ptr(c.this), ptr(c[0]))))
    contract(C + 'operator!=(const %s &) const' % TY, prop='C24', ensures=lambda c: eq(c.result, ne(ptr(c.this), ptr(c[0]))))

# ================================================================ scoped_pointer
P_ = 'scoped_pointer<vinst::obj>::'
def own(s, x):
    """it is empty or owns its object"""
    return [ge(ptr(x), 0), imp(ne(ptr(x), 0), live(s, ptr(x))), imp(eq(de(x), 0), eq(ptr(x), 0))]
owns = lambda c: own(St(c), c.this)
contract(P_ + 'scoped_pointer(vinst::obj *, void (*)(vinst::obj *&))', prop='C24', ensures=lambda c: [('object', eq(ptr(c.this1), c[0])), ('deletor', eq(de(c.this1), c[1]))])
contract(P_ + 'scoped_pointer(vinst::obj *)', prop='C24', ensures=lambda c: [('object', eq(ptr(c.this1), c[0])), ('deletor', eq(de(c.this1), fn1))])
contract(P_ + 'scoped_pointer()', prop='C24', ensures=lambda c: [('empty', conj(eq(ptr(c.this1), 0), eq(de(c.this1), 0)))])
drop = lambda c: freed(St(c), ptr(c.this), de(c.this), ne(de(c.this), 0))
contract(P_ + '~scoped_pointer()', prop='C24', requires=owns, heap=ALLH, ensures=lambda c: same(c, **drop(c)))
contract(P_ + 'reset()', prop='C24', requires=owns, heap=ALLH, ensures=lambda c: same(c, **drop(c)) + [('empty', conj(eq(ptr(c.this1), 0), eq(de(c.this1), 0)))])
contract(P_ + 'reset(vinst::obj *)', prop='C24', requires=lambda c: owns(c) + livearg(c, c[0]) + [disj(eq(c[0], 0), ne(c[0], ptr(c.this)))], heap=ALLH,
    ensures=lambda c: same(c, **drop(c)) + [('object', eq(ptr(c.this1), c[0])), ('deletor', eq(de(c.this1), fn1)), ('still live', imp(ne(c[0], 0), live(post(c), c[0])))])
contract(P_ + 'release()', prop='C24', ensures=lambda c: [('result', eq(c.result, ptr(c.this))), ('empty', conj(eq(ptr(c.this1), 0), eq(de(c.this1), 0)))])

# ================================================================ cloning_pointer
C_ = 'cloning_pointer<vinst::obj>::'
def cown(s, x): return own(s, x) + [eq(eq(cl(x), 0), eq(de(x), 0))]
contract(C_ + 'cloning_pointer(vinst::obj *, void (*)(vinst::obj *&), vinst::obj *(*)(vinst::obj *))', prop='C24', ensures=lambda c: [('object', eq(ptr(c.this1), c[0])), ('deletor', eq(de(c.this1), c[1])), ('cloner', eq(cl(c.this1), c[2]))])
contract(C_ + 'cloning_pointer(vinst::obj *)', prop='C24', ensures=lambda c: [('object', eq(ptr(c.this1), c[0])), ('deletor', eq(de(c.this1), fn1)), ('cloner', eq(cl(c.this1), fn2))])
empty3 = lambda c: [('empty', conj(eq(ptr(c.this1), 0), eq(de(c.this1), 0), eq(cl(c.this1), 0)))]
contract(C_ + 'cloning_pointer()', prop='C24', ensures=empty3)
cowns = lambda c: cown(St(c), c.this)
contract(C_ + '~cloning_pointer()', prop='C24', requires=cowns, heap=ALLH, ensures=lambda c: same(c, **drop(c)))
contract(C_ + 'swap(cloning_pointer<vinst::obj> &)', prop='C24', alias=[0], ensures=lambda c: [('this', eq(c.this1, c[0])), ('other', eq(c.post(0), c.this))])
def deep(c, a, b, lo1):
    """*this afterwards owns a new object equal to that of the argument; lo1: the live objects otherwise"""
    y, o = c.this1, c[0]; q = ptr(y); has = ne(ptr(o), 0)
    return [('nothing to copy', imp(mk_not(has), conj(eq(q, 0), eq(b.o, a.o), eq(b.lo, lo1)))),
            ('a new object', imp(has, conj(ge(q, 1), eq(vget(a.lo, q), 0), eq(b.lo, vset(lo1, q, 1))))),
            ('equal', imp(has, eq(vget(b.o, q), vget(a.o, ptr(o))))), ('others unchanged', imp(has, same_but(a.o, b.o, q))),
            ('same functions', conj(eq(de(y), de(o)), eq(cl(y), cl(o)))), ('counts', conj(eq(b.i, a.i), eq(b.li, a.li)))]
contract(C_ + 'cloning_pointer(const cloning_pointer<vinst::obj> &)', prop='C24', requires=lambda c: cown(St(c), c[0]), heap=ALLH, maythrow=[EXC],
    ensures=lambda c: deep(c, St(c), post(c), St(c).lo) + [('nothing deleted', eq(post(c).by, St(c).by))], xensures=lambda c: same(c))
contract(C_ + 'operator=(const cloning_pointer<vinst::obj> &)', prop='C24', alias=[0], requires=lambda c: cowns(c) + cown(St(c), c[0]), heap=ALLH, maythrow=[EXC],
    ensures=lambda c: deep(c, St(c), post(c), drop(c)['lo']) + [('the old one deleted', eq(post(c).by, drop(c)['by']))], xensures=lambda c: same(c) + [('this', eq(c.this1, c.this))])
contract(C_ + 'reset()', prop='C24', requires=cowns, heap=ALLH, ensures=lambda c: same(c, **drop(c)) + empty3(c))
contract(C_ + 'reset(vinst::obj *)', prop='C24', requires=lambda c: cowns(c) + livearg(c, c[0]) + [disj(eq(c[0], 0), ne(c[0], ptr(c.this)))], heap=ALLH,
    ensures=lambda c: same(c, **drop(c)) + [('object', eq(ptr(c.this1), c[0])), ('functions', conj(eq(de(c.this1), fn1), eq(cl(c.this1), fn2))), ('still live', imp(ne(c[0], 0), live(post(c), c[0])))])
contract(C_ + 'release()', prop='C24', ensures=lambda c: [('result', eq(c.result, ptr(c.this)))] + empty3(c))
contract(C_ + 'get()', prop='C24', ensures=lambda c: eq(c.result, ptr(c.this)))
contract(C_ + 'operator->()', prop='C24', ensures=lambda c: eq(c.result, ptr(c.this)))

# ================================================================ cow_pointer
W_ = 'cow_pointer<vinst::obj>::'
def wok(s, x, lim=LIM + 1):
    return [ge(ptr(x), 0), ge(rc(x), 1), eq(vget(s.li, rc(x)), 1), le(1, vget(s.i, rc(x))), (TRUE if lim is None else le(vget(s.i, rc(x)), lim)), imp(ne(ptr(x), 0), live(s, ptr(x)))]
wdo = lambda c: wok(St(c), c.this)
def nby(c): return [('objects', eq(post(c).o, St(c).o))]
contract(W_ + 'cow_pointer(vinst::obj *)', prop='C24', requires=lambda c: livearg(c, c[0]), heap=ALLH, maythrow=[BAD], xensures=lambda c: gone(c, c[0]),
    ensures=lambda c: [('object', eq(ptr(c.this1), c[0])), ('live', eq(post(c).lo, St(c).lo))] + nby(c) + fresh_cell(St(c), post(c), rc(c.this1)))
def wletgo(x, s):
    r = rc(x); n = vget(s.i, r); last = eq(n, 1)
    return dict(i=vset(s.i, r, sub(n, 1)), li=when(last, s.li, vset(s.li, r, 0)), lo=when(conj(last, ne(ptr(x), 0)), s.lo, vset(s.lo, ptr(x), 0)))
contract(W_ + '~cow_pointer()', prop='C24', requires=wdo, heap=ALLH, ensures=lambda c: same(c, **wletgo(c.this, St(c))))
contract(W_ + 'swap(cow_pointer<vinst::obj> &)', prop='C24', alias=[0], ensures=lambda c: [('this', eq(c.this1, c[0])), ('other', eq(c.post(0), c.this))])
contract(W_ + 'cow_pointer(const cow_pointer<vinst::obj> &)', prop='C24', requires=lambda c: wok(St(c), c[0], LIM), heap=ALLH,
    ensures=lambda c: [('same object', eq(c.this1, c[0]))] + same(c, i=vset(St(c).i, rc(c[0]), add(vget(St(c).i, rc(c[0])), 1))))
def wassigned(c):
    s = St(c); x, o = c.this, c[0]; q = rc(o)
    t = St.__new__(St); t.o, t.lo, t.i, t.li, t.by = s.o, s.lo, vset(s.i, q, add(vget(s.i, q), 1)), s.li, s.by
    return [('this', eq(c.this1, o))] + same(c, **wletgo(x, t)) + [('still owned', imp(ne(ptr(o), 0), live(post(c), ptr(o)))), ('still counted', eq(vget(post(c).li, q), 1))]
contract(W_ + 'operator=(const cow_pointer<vinst::obj> &)', prop='C24', alias=[0], requires=lambda c: wdo(c) + wok(St(c), c[0], LIM) + apart(c), heap=ALLH, ensures=wassigned)
def wreset(c):
    s, b = St(c), post(c); x, y = c.this, c.this1; r = rc(x); n = vget(s.i, r); last = eq(n, 1); noop = eq(ptr(x), c[0])
    more = conj(mk_not(noop), mk_not(last)); re = conj(mk_not(noop), last)
    return [('this', eq(ptr(y), c[0])), ('objects', eq(b.o, s.o)), ('nothing to do', imp(noop, conj(eq(y, x), eq(b.lo, s.lo), eq(b.i, s.i), eq(b.li, s.li)))),
        ('last: freed', imp(re, eq(b.lo, when(ne(ptr(x), 0), s.lo, vset(s.lo, ptr(x), 0))))), ('last: count', imp(re, conj(eq(rc(y), r), eq(b.i, vset(s.i, r, 1)), eq(b.li, s.li)))),
        ('not last: nothing freed', imp(more, eq(b.lo, s.lo))), ('not last: the others keep it', imp(more, eq(vget(b.i, r), sub(n, 1))))] + [(l, imp(more, g)) for l, g in fresh_cell(s, b, rc(y), 1, (r,))]
contract(W_ + 'reset(vinst::obj *)', prop='C24', requires=lambda c: wdo(c) + livearg(c, c[0]), heap=ALLH, maythrow=[BAD], ensures=wreset, xensures=lambda c: gone(c, c[0]) + [('this', eq(c.this1, c.this))])
def unshared(c):
    """afterwards *this is the only owner of an object equal to the one it had (or it has none)"""
    s, b = St(c), post(c); x, y = c.this, c.this1; r = rc(x); n = vget(s.i, r); p, q = ptr(x), ptr(y); split = conj(gt(n, 1), ne(p, 0))
    return [('alone already', imp(mk_not(split), conj(eq(y, x), eq(b.o, s.o), eq(b.lo, s.lo), eq(b.i, s.i), eq(b.li, s.li)))),
        ('a new object', imp(split, conj(ge(q, 1), eq(vget(s.lo, q), 0), eq(b.lo, vset(s.lo, q, 1))))), ('equal', imp(split, eq(vget(b.o, q), vget(s.o, p)))), ('others unchanged', imp(split, same_but(s.o, b.o, q))),
        ('the others keep theirs', imp(split, eq(vget(b.i, r), sub(n, 1)))), ('only owner', imp(ne(q, 0), eq(vget(b.i, rc(y)), 1)))] + [(l, imp(split, g)) for l, g in fresh_cell(s, b, rc(y), 1, (r,))]
def untouched(c):
    s, b = St(c), post(c)
    return [('this', eq(c.this1, c.this)), ('live', eq(b.lo, s.lo)), ('cells', eq(b.li, s.li)), ('counts', eq(b.i, s.i)), ('objects', forall(1, lambda k: imp(eq(vget(s.lo, k), 1), eq(vget(b.o, k), vget(s.o, k))), pats=lambda k: [[vget(b.o, k)]]))]
contract(W_ + 'clone()', prop='C24', requires=wdo, heap=ALLH, maythrow=[EXC, BAD], ensures=unshared, xensures=untouched)
for f in ('get()', 'operator->()'):
    contract(W_ + f, prop='C24', requires=wdo, heap=ALLH, maythrow=[EXC, BAD], ensures=lambda c: unshared(c) + [('result', eq(c.result, ptr(c.this1)))], xensures=untouched)

# ================================================================ deleting and cloning
contract('delete_helper<vinst::obj>::fn(vinst::obj *&)', prop='C24', requires=lambda c: livearg(c, c[0]), heap=ALLH, modifies=(0,),
    ensures=lambda c: same(c, lo=when(ne(c[0], 0), St(c).lo, vset(St(c).lo, c[0], 0))) + [('null', eq(c.post(0), 0))])
def cloned(c):
    s, b = St(c), post(c); q = c.result
    return [('a new object', conj(ge(q, 1), eq(vget(s.lo, q), 0), eq(b.lo, vset(s.lo, q, 1)))), ('equal', eq(vget(b.o, q), vget(s.o, c[0]))), ('others unchanged', same_but(s.o, b.o, q)), ('counts', conj(eq(b.i, s.i), eq(b.li, s.li), eq(b.by, s.by)))]
contract('clone_helper<vinst::obj>::fn(vinst::obj *)', prop='C24', requires=lambda c: [ge(c[0], 1), live(St(c), c[0])], heap=ALLH, maythrow=[EXC], ensures=cloned, xensures=lambda c: same(c),
    ret_ref=lambda X, ctx: HP(OT(X), X.freshvar('clone', 'Int')))
# the class itself: opaque
from cppv import stl
@stl.model('vinst::obj::clone')
def m_clone(X, fn, this, args):
    i = this.path[0][1]; obj = OT(X)
    X.oblige(eq(rd(X, X.live(obj), i), 1), 'only a live object is cloned')
    if X.decide(X.freshvar('throws', 'Bool')): raise CxxThrow(EXC, RecVal(EXC, {}))
    return new_clone(X, obj, i)
@stl.model('vinst::obj::~obj')
def m_dtor(X, fn, this, args): return None

# ---- any history: the invariant that every operation keeps --------------------------------
from cppv.prove import LIB
_cnt = {}
def cnt_of(sort):
    """cnt(v, r): how many pointers of the sequence v use the count r"""
    if sort in _cnt: return _cnt[sort]
    n = declare('owners_' + sort[1][1].split('_')[0].split('::')[-1], (sort, 'Int'), 'Int'); _cnt[sort] = n
    A = LIB.add
    key = 'owners_' + sort[1][1].split('_')[0].split('::')[-1]
    inn = lambda v, i: conj(le(0, i), lt(i, vlen(v)))
    A(key + '_pos', forall([sort, 'Int'], lambda v, r: ge(n(v, r), 0), pats=lambda v, r: [[n(v, r)]]), [key], 'counting')
    w = declare('owner_' + key, (sort, 'Int'), 'Int')
    A(key + '_max', forall([sort, 'Int'], lambda v, r: imp(ge(vlen(v), 0), le(n(v, r), vlen(v))), pats=lambda v, r: [[n(v, r)]]), [key], 'counting')
    A(key + '_wit', forall([sort, 'Int'], lambda v, r: imp(ge(n(v, r), 1), conj(inn(v, w(v, r)), eq(rc(vget(v, w(v, r))), r))), pats=lambda v, r: [[n(v, r)]]), [key], 'counting')
    A(key + '_one', forall([sort, 'Int'], lambda v, i: imp(inn(v, i), ge(n(v, rc(vget(v, i))), 1)), pats=lambda v, i: [[n(v, rc(vget(v, i)))]]), [key], 'counting')
    A(key + '_two', forall([sort, 'Int', 'Int'], lambda v, i, j: imp(conj(inn(v, i), inn(v, j), ne(i, j), eq(rc(vget(v, i)), rc(vget(v, j)))), ge(n(v, rc(vget(v, i))), 2)), pats=lambda v, i, j: [[n(v, rc(vget(v, i))), rc(vget(v, j))]]), [key], 'counting')
    A(key + '_only', forall([sort, 'Int', 'Int', 'Int'], lambda v, r, i, j: imp(conj(eq(n(v, r), 1), inn(v, i), inn(v, j), eq(rc(vget(v, i)), r), eq(rc(vget(v, j)), r)), eq(i, j)), pats=lambda v, r, i, j: [[n(v, r), rc(vget(v, i)), rc(vget(v, j))]]), [key], 'counting')
    A(key + '_set', forall([sort, 'Int', sort[1], 'Int'], lambda v, i, x, r: imp(inn(v, i), eq(n(vset(v, i, x), r), add(sub(n(v, r), ite(eq(rc(vget(v, i)), r), 1, 0)), ite(eq(rc(x), r), 1, 0)))), pats=lambda v, i, x, r: [[n(vset(v, i, x), r)]]), [key], 'counting')
    return n
def hist(s, v, kind):
    """every pointer of v owns its object, together with exactly those that share its count, and no other pointer holds that object"""
    n = vlen(v); inn = lambda i: conj(le(0, i), lt(i, n)); x = lambda i: vget(v, i)
    out = []
    if kind != 'cloning':
        c = cnt_of(v.sort); used = (lambda i: ne(rc(x(i)), 0)) if kind == 'shared' else (lambda i: TRUE)
        form = (lambda i: ok(s, x(i), None)) if kind == 'shared' else (lambda i: wok(s, x(i), None))
        out += [('each is an owner', forall(1, lambda i: imp(inn(i), conj(*form(i))), pats=lambda i: [[x(i)]])),
                ('counts are right', forall(1, lambda i: imp(conj(inn(i), used(i)), eq(vget(s.i, rc(x(i))), c(v, rc(x(i))))), pats=lambda i: [[x(i)]])),
                ('one count, one object', forall(2, lambda i, j: imp(conj(inn(i), inn(j), used(i), eq(rc(x(i)), rc(x(j)))), conj(eq(ptr(x(i)), ptr(x(j))), *([eq(de(x(i)), de(x(j)))] if kind == 'shared' else []))), pats=lambda i, j: [[x(i), x(j)]])),
                ('one object, one count', forall(2, lambda i, j: imp(conj(inn(i), inn(j), ne(ptr(x(i)), 0), eq(ptr(x(i)), ptr(x(j)))), eq(rc(x(i)), rc(x(j)))), pats=lambda i, j: [[x(i), x(j)]]))]
    else:
        out += [('each owns its object', forall(1, lambda i: imp(inn(i), conj(*cown(s, x(i)))), pats=lambda i: [[x(i)]])),
                ('no object is owned twice', forall(2, lambda i, j: imp(conj(inn(i), inn(j), ne(i, j), ne(ptr(x(i)), 0)), ne(ptr(x(i)), ptr(x(j)))), pats=lambda i, j: [[x(i), x(j)]]))]
    return out
def step(name, kind, nidx, newobj=False, extra=None, maythrow=(), deep=None, vecmod=True):
    def req(c):
        s = St(c); v = c[0]
        out = [g for _, g in hist(s, v, kind)] + [lt(c[k], vlen(v)) for k in range(1, 1 + nidx)]
        if newobj:
            p = c[1 + nidx]; out += [ge(p, 0), imp(ne(p, 0), live(s, p)), forall(1, lambda i: imp(conj(le(0, i), lt(i, vlen(v)), ne(p, 0)), ne(ptr(vget(v, i)), p)), pats=lambda i: [[vget(v, i)]])]
        if extra: out += extra(c)
        return out
    def ens(c):
        s, b = St(c), post(c); v, w = c[0], c.post(0); i = c[1]
        out = [('history: ' + l, g) for l, g in hist(b, w, kind)]
        # the object that pointer i had is freed if and only if nobody else owns it
        p = ptr(vget(v, i))
        if kind != 'cloning': held = gt(sub(cnt_of(v.sort)(w, rc(vget(v, i))), ite(eq(rc(vget(w, i)), rc(vget(v, i))), 1, 0)), 0)
        return out + ([('freed with its last owner', imp(conj(ne(p, 0), ne(ptr(vget(w, i)), p)), eq(live(b, p), held)))] if kind != 'cloning' and 'swap' not in name else []) + (deep(c) if deep else [])
    contract('vinst::' + name, prop='C24', requires=req, ensures=ens, heap=ALLH, maythrow=list(maythrow), xensures=lambda c: [('history: ' + l, g) for l, g in hist(post(c), c.post(0), kind)], terminates=False)
SPV, WPV, CPV = ('std::vector<shared_pointer<vinst::obj>> &', 'std::vector<cow_pointer<vinst::obj>> &', 'std::vector<cloning_pointer<vinst::obj>> &')
U = 'unsigned int'
step('shared_assign(%s, %s, %s)' % (SPV, U, U), 'shared', 2)
step('shared_swap(%s, %s, %s)' % (SPV, U, U), 'shared', 2)
step('shared_drop(%s, %s)' % (SPV, U), 'shared', 1)
step('shared_new(%s, %s, vinst::obj *)' % (SPV, U), 'shared', 1, True, maythrow=[BAD])
step('shared_new_with(%s, %s, vinst::obj *, void (*)(vinst::obj *&))' % (SPV, U), 'shared', 1, True, extra=lambda c: [ne(c[3], 0)], maythrow=[BAD])
step('shared_reset(%s, %s, vinst::obj *)' % (SPV, U), 'shared', 1, True, maythrow=[BAD])
step('shared_copy(%s, %s)' % (SPV, U), 'shared', 1)
step('cow_assign(%s, %s, %s)' % (WPV, U, U), 'cow', 2)
step('cow_swap(%s, %s, %s)' % (WPV, U, U), 'cow', 2)
step('cow_new(%s, %s, vinst::obj *)' % (WPV, U), 'cow', 1, True, maythrow=[BAD])
step('cow_reset(%s, %s, vinst::obj *)' % (WPV, U), 'cow', 1, True, maythrow=[BAD])
step('cow_copy(%s, %s)' % (WPV, U), 'cow', 1)
step('cow_write(%s, %s, int)' % (WPV, U), 'cow', 1, maythrow=[EXC, BAD], deep=lambda c: [('written', eq(vget(post(c).o, ptr(vget(c.post(0), c[1]))), c[2])),
    ('seen by nobody else', forall(1, lambda k: imp(conj(le(0, k), lt(k, vlen(c[0])), ne(k, c[1])), eq(vget(post(c).o, ptr(vget(c.post(0), k))), vget(St(c).o, ptr(vget(c[0], k))))), pats=lambda k: [[vget(c.post(0), k)]]))], extra=lambda c: [ne(ptr(vget(c[0], c[1])), 0)])
step('cloning_assign(%s, %s, %s)' % (CPV, U, U), 'cloning', 2, maythrow=[EXC])
step('cloning_swap(%s, %s, %s)' % (CPV, U, U), 'cloning', 2)
step('cloning_reset(%s, %s, vinst::obj *)' % (CPV, U), 'cloning', 1, True)
step('cloning_drop(%s, %s)' % (CPV, U), 'cloning', 1)
step('cloning_copy(%s, %s)' % (CPV, U), 'cloning', 1, maythrow=[EXC])
