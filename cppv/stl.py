"""Models (assumed contracts) of the standard library functions the code calls.

Sequence containers are finite sequences; iterators are (container, index).
What is assumed here is listed in every evidence file as part of the trusted
base (World.models records each model a proof used).
"""
from .terms import *
from .vals import *
from .vals import LIM

NPOS = 2**64 - 1
FN = {}; CT = {}
VI = ('Vec', 'Int')

def model(*names):
    def d(f):
        for n in names: FN[n] = f
        return f
    return d
def ctor(*names):
    def d(f):
        for n in names: CT[n] = f
        return f
    return d
def lookup(fn): return FN.get(fn.gq)
def construct(X, fn, t, args):
    f = CT.get(t.tmpl or t.s) or CT.get(t.s)
    if f is None:
        if t.s in STDEXC: return RecVal(t.s, {})
        return None
    X.w.models.add(fn.gq)
    return f(X, fn, t, args)
STDEXC = ('std::invalid_argument', 'std::out_of_range', 'std::logic_error', 'std::runtime_error', 'std::length_error', 'std::exception', 'std::bad_alloc', 'std::domain_error', 'std::overflow_error')

def names(pre, *ms): return [pre + '::' + m for m in ms]
SEQN = ('std::vector', 'std::list', 'std::deque', 'std::basic_string')
def seqnames(*ms): return [c + '::' + m for c in SEQN for m in ms]
ITN = ('__gnu_cxx::__normal_iterator', 'std::reverse_iterator', 'std::_List_iterator', 'std::_List_const_iterator', 'std::_Deque_iterator', 'std::_Rb_tree_iterator', 'std::_Rb_tree_const_iterator')
def itnames(*ms): return [c + '::' + m for c in ITN for m in ms]

# ---- sequence functions with axioms (declared per element sort) ------------------
def ss(s):
    from .terms import sort_name
    return sort_name(s)
_ax_done = set()
def _lib():
    from .prove import LIB
    return LIB
def vcat(a, b):
    """concatenation"""
    if b.op == 'mk' and b.args[0].op == 'int' and b.args[0].data <= 16:
        for k in range(b.args[0].data): a = vpush(a, vget(b, k))
        return a
    if a.op == 'mk' and a.args[0] is num(0): return b
    s = a.sort; n = 'vcat_' + ss(s[1])
    f = declare(n, (s, s), s)
    if n not in _ax_done:
        _ax_done.add(n)
        d = default(s[1])
        _lib().add(n + '_len', forall([s, s], lambda a, b: imp(conj(ge(vlen(a), 0), ge(vlen(b), 0)), eq(vlen(f(a, b)), add(vlen(a), vlen(b)))), pats=lambda a, b: [[f(a, b)]]), [n], 'definition')
        _lib().add(n + '_0', forall([s, s], lambda a, b: imp(eq(vlen(a), 0), eq(f(a, b), b)), pats=lambda a, b: [[f(a, b)]]), [n], 'definition')
        _lib().add(n + '_get', forall([s, s, 'Int'], lambda a, b, k: imp(conj(ge(vlen(a), 0), ge(vlen(b), 0)), eq(vget(f(a, b), k),
              ite(conj(le(0, k), lt(k, vlen(a))), vget(a, k), ite(conj(le(vlen(a), k), lt(k, add(vlen(a), vlen(b)))), vget(b, sub(k, vlen(a))), d)))), pats=lambda a, b, k: [[vget(f(a, b), k)]]), [n], 'definition')
    return f(a, b)
def vsub(a, i, n):
    """n elements starting at i (0 <= i, 0 <= n, i+n <= len)"""
    i = T(i); n = T(n)
    if i is num(0) and n is vlen(a): return a
    if n is num(0): return vempty(a.sort[1])
    s = a.sort; nm = 'vsub_' + ss(s[1])
    f = declare(nm, (s, 'Int', 'Int'), s)
    if nm not in _ax_done:
        _ax_done.add(nm); d = default(s[1])
        _lib().add(nm + '_len', forall([s, 'Int', 'Int'], lambda a, i, n: imp(le(0, n), eq(vlen(f(a, i, n)), n)), pats=lambda a, i, n: [[f(a, i, n)]]), [nm], 'definition')
        _lib().add(nm + '_get', forall([s, 'Int', 'Int', 'Int'], lambda a, i, n, k: imp(le(0, n), eq(vget(f(a, i, n), k), ite(conj(le(0, k), lt(k, n)), vget(a, add(i, k)), d))), pats=lambda a, i, n, k: [[vget(f(a, i, n), k)]]), [nm], 'definition')
    return f(a, i, n)
def vconst(n, x):
    """n copies of x"""
    n = T(n)
    if x is default(x.sort): return mkvec(n, constarr(x))
    if n.op == 'int' and n.data <= 8: return vlit(x.sort, [x] * n.data)
    s = ('Vec', x.sort); nm = 'vconst_' + ss(x.sort)
    f = declare(nm, ('Int', x.sort), s)
    if nm not in _ax_done:
        _ax_done.add(nm); d = default(x.sort)
        _lib().add(nm + '_len', forall(['Int', x.sort], lambda n, x: imp(le(0, n), eq(vlen(f(n, x)), n)), pats=lambda n, x: [[f(n, x)]]), [nm], 'definition')
        _lib().add(nm + '_get', forall(['Int', x.sort, 'Int'], lambda n, x, k: imp(le(0, n), eq(vget(f(n, x), k), ite(conj(le(0, k), lt(k, n)), x, d))), pats=lambda n, x, k: [[vget(f(n, x), k)]]), [nm], 'definition')
    return f(n, x)
def vfind(v, x, i):
    """least k >= i with v[k] == x, or len(v)"""
    i = T(i); s = v.sort; nm = 'vfind_' + ss(s[1])
    f = declare(nm, (s, s[1], 'Int'), 'Int')
    if nm not in _ax_done:
        _ax_done.add(nm)
        pre = lambda v, i: conj(le(0, i), le(i, vlen(v)))
        _lib().add(nm + '_rng', forall([s, s[1], 'Int'], lambda v, x, i: imp(pre(v, i), conj(le(i, f(v, x, i)), le(f(v, x, i), vlen(v)), disj(eq(f(v, x, i), vlen(v)), eq(vget(v, f(v, x, i)), x)))), pats=lambda v, x, i: [[f(v, x, i)]]), [nm], 'definition')
        _lib().add(nm + '_min', forall([s, s[1], 'Int', 'Int'], lambda v, x, i, k: imp(conj(pre(v, i), le(i, k), lt(k, f(v, x, i))), ne(vget(v, k), x)), pats=lambda v, x, i, k: [[f(v, x, i), vget(v, k)]]), [nm], 'definition')
    return f(v, x, i)
def cstrlen(v, i):
    """length of the NUL-terminated string starting at v[i] (elements outside v are 0)"""
    i = T(i)
    if v.op == 'mk' and v.args[0].op == 'int' and i.op == 'int':
        k = 0
        while True:
            if i.data + k >= v.args[0].data: return num(k)
            x = vget(v, i.data + k)
            if x.op != 'int': break
            if x.data == 0: return num(k)
            k += 1
    f = declare('cstrlen', (VI, 'Int'), 'Int')
    if 'cstrlen' not in _ax_done:
        _ax_done.add('cstrlen')
        pre = lambda v, i: conj(le(0, i), le(i, vlen(v)))
        _lib().add('cstrlen_rng', forall([VI, 'Int'], lambda v, i: imp(pre(v, i), conj(le(0, f(v, i)), le(add(i, f(v, i)), vlen(v)), disj(eq(add(i, f(v, i)), vlen(v)), eq(vget(v, add(i, f(v, i))), 0)))), pats=lambda v, i: [[f(v, i)]]), ['cstrlen'], 'definition')
        _lib().add('cstrlen_min', forall([VI, 'Int', 'Int'], lambda v, i, k: imp(conj(pre(v, i), le(i, k), lt(k, add(i, f(v, i)))), ne(vget(v, k), 0)), pats=lambda v, i, k: [[f(v, i), vget(v, k)]]), ['cstrlen'], 'definition')
    return f(v, i)
def lexlt(a, b):
    s = a.sort; nm = 'lexlt_' + ss(s[1]); f = declare(nm, (s, s), 'Bool')
    if nm not in _ax_done:
        _ax_done.add(nm)
        _lib().add(nm + '_irr', forall([s], lambda a: mk_not(f(a, a)), pats=lambda a: [[f(a, a)]]), [nm], 'definition')
        _lib().add(nm + '_tot', forall([s, s], lambda a, b: disj(f(a, b), f(b, a), eq(a, b)), pats=lambda a, b: [[f(a, b)], [f(b, a)]]), [nm], 'definition')
        _lib().add(nm + '_asy', forall([s, s], lambda a, b: disj(mk_not(f(a, b)), mk_not(f(b, a))), pats=lambda a, b: [[f(a, b)], [f(b, a)]]), [nm], 'definition')
        _lib().add(nm + '_tra', forall([s, s, s], lambda a, b, c: imp(conj(f(a, b), f(b, c)), f(a, c)), pats=lambda a, b, c: [[f(a, b), f(b, c)]]), [nm], 'definition')
    return f(a, b)

# ---- helpers ---------------------------------------------------------------------
def val(X, a): return X.read(a) if isinstance(a, LV) else a
def tv(X, a, t):
    v = val(X, a); return to_term(v, t)
def rd(X, this): return X.read(this)
def elem(this): return seqelem(this.type)
def cstr_of(X, p):
    """content of the C string a pointer points to"""
    p = X.nonnull(p)
    if not isinstance(p, Ptr): raise Unsupported('C string %r' % (p,))
    v = X.read(p.c)
    X.oblige(conj(le(0, p.i), le(p.i, vlen(v))), 'access within bounds')
    n = cstrlen(v, p.i)
    if v in X.old.get('nonul', ()) : n = sub(vlen(v), p.i)
    if not p.nul: X.oblige(lt(add(p.i, n), vlen(v)), 'C string is terminated')
    return vsub(v, p.i, n)
def str_of(X, a):
    v = val(X, a)
    if isinstance(v, Term) and v.sort == VI: return v
    return cstr_of(X, v)
def grow(X, n): X.oblige(TRUE, ''), X.assume(le(n, LIM))
def setlen(X, this, v):
    X.assume(le(vlen(v), LIM)); X.write(this, v)

# ---- vectors, strings, lists ---------------------------------------------------
@ctor('std::vector', 'std::list', 'std::deque')
def c_vector(X, fn, t, args):
    e = seqelem(t); s = sort_of(e); ps = fn.ps
    args = [a for a, p in zip(args, ps) if not p.strip().s.startswith('std::allocator')]
    if not args: return vempty(s)
    a0 = val(X, args[0])
    if len(args) == 1:
        if isinstance(a0, Term) and a0.sort == ('Vec', s): return a0
        n = X.asint(a0)
        X.oblige(le(0, n), 'container size'); X.oblige(le(n, LIM), 'container size below 2^28')
        return vconst(n, to_term(X.init_field(e, None) if e.k == 'rec' else X.zero_val(e), e))
    if len(args) == 2 and isinstance(a0, (Ptr,)):
        b = val(X, args[1])
        if not a0.c.same(b.c): raise Unsupported('range of two containers')
        v = X.read(a0.c)
        if v.sort != ('Vec', s): 
            raise Unsupported('converting range constructor')
        i, j = a0.i, b.i
        X.oblige(conj(le(0, i), le(i, j), le(j, vlen(v))), 'valid range')
        if a0.rev: raise Unsupported('reverse range')
        return vsub(v, i, sub(j, i))
    if len(args) == 2 and isinstance(a0, Term):
        n = X.asint(a0); X.oblige(conj(le(0, n), le(n, LIM)), 'container size')
        return vconst(n, tv(X, args[1], e))
    raise Unsupported('constructor ' + fn.key)

@ctor('std::basic_string')
def c_string(X, fn, t, args):
    args = [a for a, p in zip(args, fn.ps) if not p.strip().s.startswith('std::allocator')]
    if not args: return vempty('Int')
    a0 = val(X, args[0])
    if len(args) == 1: return str_of(X, a0)
    if len(args) == 2:
        b = val(X, args[1])
        if isinstance(a0, Ptr) and isinstance(b, Ptr):
            if not a0.c.same(b.c): raise Unsupported('range of two containers')
            v = X.read(a0.c)
            X.oblige(conj(le(0, a0.i), le(a0.i, b.i), le(b.i, vlen(v))), 'valid range')
            return vsub(v, a0.i, sub(b.i, a0.i))
        if isinstance(a0, Ptr):
            v = X.read(a0.c); n = X.asint(b)
            X.oblige(conj(le(0, a0.i), le(add(a0.i, n), vlen(v)), le(0, n)), 'valid range')
            return vsub(v, a0.i, n)
        if isinstance(a0, Term) and a0.sort == 'Int':
            X.oblige(conj(le(0, a0), le(a0, LIM)), 'container size')
            return vconst(a0, X.asint(b))
    if len(args) in (2, 3) and isinstance(a0, Term) and a0.sort == VI:
        i = X.asint(val(X, args[1])); n = X.asint(val(X, args[2])) if len(args) == 3 else num(NPOS)
        return substr(X, a0, i, n)
    raise Unsupported('constructor ' + fn.key)
@ctor('std::allocator')
def c_alloc(X, fn, t, args): return RecVal(t.s, {})
@ctor('std::pair')
def c_pair(X, fn, t, args):
    if not args: return X.zero_val(t)
    if len(args) == 2: return RecVal(t.s, {'first': val(X, args[0]), 'second': val(X, args[1])})
    v = val(X, args[0])
    if isinstance(v, RecVal): return RecVal(t.s, dict(v.f))
    raise Unsupported('constructor ' + fn.key)
@model('std::make_pair')
def m_pair(X, fn, this, args):
    return RecVal(fn.ret.s, {'first': val(X, args[0]), 'second': val(X, args[1])})
@ctor('std::iterator', 'std::unary_function', 'std::binary_function', 'std::less', 'std::char_traits')
def c_empty(X, fn, t, args): return RecVal(t.s, {})

@model(*seqnames('size', 'length'))
def size(X, fn, this, args): return vlen(rd(X, this))
@model(*seqnames('empty'))
def empty(X, fn, this, args): return eq(vlen(rd(X, this)), 0)
@model(*seqnames('reserve'))
def reserve(X, fn, this, args): return None
@model(*seqnames('capacity', 'max_size'))
def cap(X, fn, this, args): raise Unsupported(fn.key)
@model(*seqnames('operator[]', 'at'))
def index(X, fn, this, args):
    v = rd(X, this); i = X.asint(val(X, args[0])); n = vlen(v)
    if fn.n == 'at':
        from .exec import CxxThrow
        if not X.decide(conj(le(0, i), lt(i, n))): raise CxxThrow('std::out_of_range', RecVal('std::out_of_range', {}))
    elif this.type.strip().tmpl == 'std::basic_string':
        X.oblige(conj(le(0, i), le(i, n)), 'index within bounds')
        X.assume(imp(eq(i, n), eq(vget(v, i), 0)))
    else: X.oblige(conj(le(0, i), lt(i, n)), 'index within bounds')
    return this.index(i, elem(this))
@model(*seqnames('front'))
def front(X, fn, this, args):
    X.oblige(ge(vlen(rd(X, this)), 1), 'front() of a non-empty container'); return this.index(num(0), elem(this))
@model(*seqnames('back'))
def back(X, fn, this, args):
    v = rd(X, this)
    X.oblige(ge(vlen(v), 1), 'back() of a non-empty container'); return this.index(sub(vlen(v), 1), elem(this))
@model(*seqnames('begin', 'cbegin'))
def begin(X, fn, this, args): return Ptr(this, num(0))
@model(*seqnames('end', 'cend'))
def end(X, fn, this, args): return Ptr(this, vlen(rd(X, this)))
@model(*seqnames('rbegin'))
def rbegin(X, fn, this, args): return Ptr(this, vlen(rd(X, this)), rev=True)
@model(*seqnames('rend'))
def rend(X, fn, this, args): return Ptr(this, num(0), rev=True)
@model('std::basic_string::c_str', 'std::basic_string::data')
def c_str(X, fn, this, args): return Ptr(this, num(0), nul=True)
@model('std::vector::data')
def v_data(X, fn, this, args): return Ptr(this, num(0))
@model(*seqnames('push_back'))
def push_back(X, fn, this, args):
    x = tv(X, args[0], elem(this)); v = rd(X, this)
    setlen(X, this, vpush(v, x))
@model(*seqnames('pop_back'))
def pop_back(X, fn, this, args):
    v = rd(X, this); X.oblige(ge(vlen(v), 1), 'pop_back() of a non-empty container'); X.write(this, vpop(v))
@model(*seqnames('clear'))
def clear(X, fn, this, args): X.write(this, vempty(rd(X, this).sort[1]))
@model(*seqnames('swap'))
def swap_(X, fn, this, args):
    a = rd(X, this); b = X.read(args[0]); X.write(this, b); X.write(args[0], a)
@model(*seqnames('operator='))
def assign(X, fn, this, args):
    a = val(X, args[0])
    if this.type.strip().tmpl == 'std::basic_string':
        v = vlit('Int', [X.asint(a)]) if isinstance(a, Term) and a.sort == 'Int' else str_of(X, a)
    else: v = a
    X.write(this, v); return this
@model('std::vector::resize', 'std::deque::resize', 'std::list::resize')
def resize(X, fn, this, args):
    v = rd(X, this); n = X.asint(val(X, args[0])); e = elem(this)
    X.oblige(conj(le(0, n), le(n, LIM)), 'container size')
    x = tv(X, args[1], e) if len(args) > 1 else to_term(X.init_field(e, None) if e.k == 'rec' else X.zero_val(e), e)
    if X.decide(le(n, vlen(v))): X.write(this, vsub(v, num(0), n))
    else: X.write(this, vcat(v, vconst(sub(n, vlen(v)), x)))
@model('std::vector::assign')
def vassign(X, fn, this, args):
    e = elem(this)
    class F: pass
    f = F(); f.ps = fn.ps; f.key = fn.key
    X.write(this, c_vector(X, f, this.type.strip(), args))
def vdel(v, i, n):
    """remove n elements at i"""
    return vcat(vsub(v, 0, i), vsub(v, add(i, n), sub(vlen(v), add(i, n))))
@model('std::vector::erase', 'std::deque::erase', 'std::list::erase')
def erase(X, fn, this, args):
    v = rd(X, this); i = args[0].i
    if len(args) == 1:
        X.oblige(conj(le(0, i), lt(i, vlen(v))), 'erase within bounds'); X.write(this, vdel(v, i, num(1)))
    else:
        j = args[1].i
        X.oblige(conj(le(0, i), le(i, j), le(j, vlen(v))), 'valid range'); X.write(this, vdel(v, i, sub(j, i)))
    return Ptr(this, i)
@model('std::vector::insert', 'std::deque::insert', 'std::list::insert')
def insert(X, fn, this, args):
    v = rd(X, this); i = args[0].i; e = elem(this)
    X.oblige(conj(le(0, i), le(i, vlen(v))), 'insert within bounds')
    if len(args) == 2:
        x = tv(X, args[1], e)
        setlen(X, this, vcat(vpush(vsub(v, 0, i), x), vsub(v, i, sub(vlen(v), i)))); return Ptr(this, i)
    if len(args) == 3 and isinstance(args[1], Ptr):
        w = X.read(args[1].c); a, b = args[1].i, args[2].i
        X.oblige(conj(le(0, a), le(a, b), le(b, vlen(w))), 'valid range')
        if i is vlen(v): setlen(X, this, vcat(v, vsub(w, a, sub(b, a))))
        else: setlen(X, this, vcat(vcat(vsub(v, 0, i), vsub(w, a, sub(b, a))), vsub(v, i, sub(vlen(v), i))))
        return Ptr(this, i)
    raise Unsupported(fn.key)
# strings
@model('std::basic_string::operator+=')
def s_add(X, fn, this, args):
    a = val(X, args[0]); v = rd(X, this)
    if isinstance(a, Term) and a.sort == 'Int': setlen(X, this, vpush(v, a))
    else: setlen(X, this, vcat(v, str_of(X, a)))
    return this
@model('std::basic_string::append')
def s_append(X, fn, this, args):
    v = rd(X, this); a = val(X, args[0])
    if len(args) == 1: w = str_of(X, a)
    elif isinstance(a, Term) and a.sort == 'Int':
        if a is num(1): setlen(X, this, vpush(v, X.asint(val(X, args[1])))); return this
        w = vconst(a, X.asint(val(X, args[1])))
    elif isinstance(a, Ptr):
        b = val(X, args[1]); src = X.read(a.c)
        n = sub(b.i, a.i) if isinstance(b, Ptr) else X.asint(b)
        X.oblige(conj(le(0, a.i), le(0, n), le(add(a.i, n), vlen(src))), 'valid range')
        w = vsub(src, a.i, n)
    else: raise Unsupported(fn.key)
    setlen(X, this, vcat(v, w)); return this
@model('std::operator+')
def s_plus(X, fn, this, args):
    def one(a):
        a = val(X, a)
        return vlit('Int', [a]) if isinstance(a, Term) and a.sort == 'Int' else str_of(X, a)
    r = vcat(one(args[0]), one(args[1])); X.assume(le(vlen(r), LIM)); return r
def substr(X, v, i, n):
    from .exec import CxxThrow
    if not X.decide(le(i, vlen(v))): raise CxxThrow('std::out_of_range', RecVal('std::out_of_range', {}))
    if n is num(NPOS): m = sub(vlen(v), i)
    elif X.entails(le(add(i, n), vlen(v))): m = n
    elif X.entails(ge(add(i, n), vlen(v))): m = sub(vlen(v), i)
    else: m = ite(le(add(i, n), vlen(v)), n, sub(vlen(v), i))
    return vsub(v, i, m)
@model('std::basic_string::substr')
def s_substr(X, fn, this, args):
    return substr(X, rd(X, this), X.asint(val(X, args[0])), X.asint(val(X, args[1])))
@model('std::basic_string::erase')
def s_erase(X, fn, this, args):
    v = rd(X, this); a = val(X, args[0])
    if isinstance(a, Ptr):
        if len(args) == 1:
            X.oblige(conj(le(0, a.i), lt(a.i, vlen(v))), 'erase within bounds')
            if a.i is sub(vlen(v), 1): X.write(this, vpop(v))
            else: X.write(this, vdel(v, a.i, num(1)))
        else:
            b = val(X, args[1])
            X.oblige(conj(le(0, a.i), le(a.i, b.i), le(b.i, vlen(v))), 'valid range'); X.write(this, vdel(v, a.i, sub(b.i, a.i)))
        return Ptr(this, a.i)
    from .exec import CxxThrow
    n = X.asint(val(X, args[1])); a = X.asint(a)
    if not X.decide(le(a, vlen(v))): raise CxxThrow('std::out_of_range', RecVal('std::out_of_range', {}))
    if n is num(NPOS) or X.decide(ge(add(a, n), vlen(v))): X.write(this, vsub(v, 0, a))
    else: X.write(this, vdel(v, a, n))
    return this
@model('std::basic_string::insert')
def s_insert(X, fn, this, args):
    v = rd(X, this); a = val(X, args[0])
    if isinstance(a, Ptr) and len(args) == 2:
        x = val(X, args[1]); i = a.i
        X.oblige(conj(le(0, i), le(i, vlen(v))), 'insert within bounds')
        setlen(X, this, vcat(vpush(vsub(v, 0, i), X.asint(x)), vsub(v, i, sub(vlen(v), i)))); return Ptr(this, i)
    raise Unsupported(fn.key)
@model('std::basic_string::find')
def s_find(X, fn, this, args):
    v = rd(X, this); a = val(X, args[0]); p = X.asint(val(X, args[1]))
    if not (isinstance(a, Term) and a.sort == 'Int'): raise Unsupported(fn.key)
    if not X.decide(le(p, vlen(v))): return num(NPOS)
    r = vfind(v, a, p)
    if X.decide(eq(r, vlen(v))): return num(NPOS)
    return r
# comparison
@model('std::operator==', 'std::operator!=', 'std::operator<', 'std::operator>', 'std::operator<=', 'std::operator>=')
def compare(X, fn, this, args):
    a = val(X, args[0]); b = val(X, args[1]); op = fn.n.replace('operator', '')
    if isinstance(a, Ptr) and isinstance(b, Ptr) and not ('basic_string' in fn.key or 'std::string' in fn.key): return X.ptrop(op, a, b)
    t0 = fn.ps[0].strip(); t1 = fn.ps[1].strip()
    strs = any(t.tmpl == 'std::basic_string' for t in (t0, t1))
    if strs: a = str_of(X, a); b = str_of(X, b)
    else: a = to_term(a, t0); b = to_term(b, t1)
    if op == '==': return eq(a, b)
    if op == '!=': return ne(a, b)
    if isinstance(a.sort, tuple) and a.sort[0] == 'Vec':
        if op == '<': return lexlt(a, b)
        if op == '>': return lexlt(b, a)
        if op == '<=': return mk_not(lexlt(b, a))
        return mk_not(lexlt(a, b))
    raise Unsupported(fn.key)
# ---- maps and sets: sorted sequences ------------------------------------------------
MAPS = ('std::map', 'std::multimap')
TREES = MAPS + ('std::set', 'std::multiset')
def treenames(*ms): return [c + '::' + m for c in TREES for m in ms]
def tree(s):
    """the functions on sorted sequences of sort s"""
    nm = ss(s[1]); keyed = False
    srt = declare('sorted_' + nm, (s,), 'Bool'); 
    return srt
def keyof(t):
    """sort of the key and key of an element of container type t"""
    t = t.strip()
    if t.tmpl in MAPS: return sort_of(t.targs[0]), (lambda x: recget(x, 'first'))
    return sort_of(t.targs[0]), (lambda x: x)
def tree_fns(t):
    t = t.strip(); s = sort_of(t); ks, key = keyof(t)
    nm = ('m' if t.tmpl in MAPS else 's') + ('m' if 'multi' in t.tmpl else 'u') + ss(s[1])
    srt = declare('srt_' + nm, (s,), 'Bool'); lo = declare('eqlo_' + nm, (s, ks), 'Int'); hi = declare('eqhi_' + nm, (s, ks), 'Int')
    if nm not in _ax_done:
        _ax_done.add(nm)
        A = lambda n, f: _lib().add(n + nm, f, ['eqlo_' + nm, 'eqhi_' + nm], 'definition')
        V = lambda v, x: [[lo(v, x)], [hi(v, x)]]
        A('eqrng_', forall([s, ks], lambda v, x: imp(srt(v), conj(le(0, lo(v, x)), le(lo(v, x), hi(v, x)), le(hi(v, x), vlen(v)))), pats=V))
        A('eqin_', forall([s, ks, 'Int'], lambda v, x, k: imp(conj(srt(v), le(0, k), lt(k, vlen(v))), eq(conj(le(lo(v, x), k), lt(k, hi(v, x))), eq(key(vget(v, k)), x))), pats=lambda v, x, k: [[lo(v, x), vget(v, k)], [hi(v, x), vget(v, k)]]))
        if t.tmpl in MAPS:
            # changing the value of an element keeps the order
            def upd(n, a, p, y, x):
                v = mkvec(n, a); w = mkvec(n, store(a, p, y))
                return imp(conj(srt(v), le(0, p), lt(p, n), eq(key(y), key(select(a, p)))), conj(srt(w), eq(lo(w, x), lo(v, x)), eq(hi(w, x), hi(v, x))))
            q = ['Int', ('Array', s[1]), 'Int', s[1]]
            A('equpd_', forall(q + [ks], upd, pats=lambda n, a, p, y, x: [[lo(mkvec(n, store(a, p, y)), x)], [hi(mkvec(n, store(a, p, y)), x)]]))
            A('srtupd_', forall(q, lambda n, a, p, y: imp(conj(srt(mkvec(n, a)), le(0, p), lt(p, n), eq(key(y), key(select(a, p)))), srt(mkvec(n, store(a, p, y)))), pats=lambda n, a, p, y: [[srt(mkvec(n, store(a, p, y)))]]))
        if 'multi' not in t.tmpl: A('eq1_', forall([s, ks], lambda v, x: imp(srt(v), le(hi(v, x), add(lo(v, x), 1))), pats=V))
    return srt, lo, hi, key
def tree_facts(x, t):
    return [tree_fns(t)[0](x)]
from . import vals as _vals
_vals.set_facts = tree_facts
@ctor(*TREES)
def c_tree(X, fn, t, args):
    args = [a for a, p in zip(args, fn.ps) if not p.strip().s.startswith(('std::allocator', 'std::less'))]
    if not args:
        v = vempty(sort_of(t)[1]); X.assume(tree_fns(t)[0](v)); return v
    a = val(X, args[0])
    if isinstance(a, Term) and a.sort == sort_of(t): return a
    raise Unsupported('constructor ' + fn.key)
@model(*treenames('size'))
def t_size(X, fn, this, args): return vlen(rd(X, this))
@model(*treenames('empty'))
def t_empty(X, fn, this, args): return eq(vlen(rd(X, this)), 0)
@model(*treenames('begin', 'cbegin'))
def t_begin(X, fn, this, args): return Ptr(this, num(0))
@model(*treenames('end', 'cend'))
def t_end(X, fn, this, args): return Ptr(this, vlen(rd(X, this)))
@model(*treenames('clear'))
def t_clear(X, fn, this, args):
    v = vempty(rd(X, this).sort[1]); X.assume(tree_fns(this.type)[0](v)); X.write(this, v)
@model(*treenames('swap'))
def t_swap(X, fn, this, args): swap_(X, fn, this, args)
@model(*treenames('operator='))
def t_assign(X, fn, this, args): X.write(this, val(X, args[0])); return this
def tkey(X, this, a): return tv(X, a, this.type.strip().targs[0])
@model(*treenames('equal_range'))
def t_eqrange(X, fn, this, args):
    srt, lo, hi, key = tree_fns(this.type); v = rd(X, this); x = tkey(X, this, args[0])
    return RecVal(fn.ret.s, {'first': Ptr(this, lo(v, x)), 'second': Ptr(this, hi(v, x))})
@model(*treenames('lower_bound'))
def t_lower(X, fn, this, args):
    srt, lo, hi, key = tree_fns(this.type); return Ptr(this, lo(rd(X, this), tkey(X, this, args[0])))
@model(*treenames('upper_bound'))
def t_upper(X, fn, this, args):
    srt, lo, hi, key = tree_fns(this.type); return Ptr(this, hi(rd(X, this), tkey(X, this, args[0])))
@model(*treenames('count'))
def t_count(X, fn, this, args):
    srt, lo, hi, key = tree_fns(this.type); v = rd(X, this); x = tkey(X, this, args[0])
    return sub(hi(v, x), lo(v, x))
@model(*treenames('find'))
def t_find(X, fn, this, args):
    srt, lo, hi, key = tree_fns(this.type); v = rd(X, this); x = tkey(X, this, args[0])
    if X.decide(lt(lo(v, x), hi(v, x))):
        i = lo(v, x)
        if 'multi' in this.type.strip().tmpl:
            i = X.freshvar('found', 'Int'); X.assume(le(lo(v, x), i), lt(i, hi(v, x)))
        return Ptr(this, i)
    return Ptr(this, vlen(v))
def tree_put(X, this, x, hint=None):
    """insert x (its key is new, or the container allows equal keys: then after the equal ones); the position"""
    srt, lo, hi, key = tree_fns(this.type); v = rd(X, this)
    p = hi(v, key(x))
    w = vcat(vpush(vsub(v, 0, p), x), vsub(v, p, sub(vlen(v), p)))
    X.assume(conj(le(0, p), le(p, vlen(v)))); setlen(X, this, w); X.assume(srt(w))
    # what was in the container still is, and x is new
    X.assume(forall([key(x).sort], lambda y: eq(lt(lo(w, y), hi(w, y)), disj(eq(y, key(x)), lt(lo(v, y), hi(v, y)))), pats=lambda y: [[lo(w, y)], [hi(w, y)]]))
    shift_iters(X, this, p, 1)
    return p
def tree_del(X, this, p):
    srt, lo, hi, key = tree_fns(this.type); v = rd(X, this)
    X.oblige(conj(le(0, p), lt(p, vlen(v))), 'erase within bounds')
    w = vdel(v, p, num(1)); X.write(this, w); X.assume(srt(w))
    shift_iters(X, this, add(p, 1), -1)
def shift_iters(X, this, p, d):
    """iterators to elements from p on keep pointing to their elements"""
    move = lambda i: ite(ge(i, p), add(i, d), i)
    def walk(v, lv):
        if isinstance(v, Ptr) and v.c.same(this): return v.at(move(v.i))
        if isinstance(v, RecVal):
            f = {k: walk(x, lv) for k, x in v.f.items()}
            return RecVal(v.name, f) if any(f[k] is not v.f[k] for k in f) else v
        if isinstance(v, Term) and isinstance(v.sort, tuple) and has_iter(v.sort):
            if not (v.sort[0] == 'Vec' and this.root.startswith('heap.')): raise Unsupported('iterators held in a container')
            own = this.path[0][1]
            def one(x):
                if x.sort == ('Rec', 'iter'): return ite(eq(recget(x, 'own'), own), mkrec('iter', [own, move(recget(x, 'pos'))]), x)
                if x.sort[0] == 'Rec': return mkrec(x.sort[1], [one(recget(x, k)) if isinstance(ks, tuple) and has_iter(ks) else recget(x, k) for k, ks in RECS[x.sort[1]]])
                raise Unsupported('iterators held in a container')
            if v.op == 'mk' and v.args[0].op == 'int':
                return vlit(v.sort[1], [one(vget(v, k)) for k in range(v.args[0].data)])
            w = mkvec(vlen(v), X.freshvar('shifted', ('Array', v.sort[1])))
            X.assume(forall(1, lambda k: imp(conj(le(0, k), lt(k, vlen(v))), eq(vget(w, k), one(vget(v, k)))), pats=lambda k: [[vget(w, k)]]))
            return w
        return v
    for r, v in list(X.store.items()):
        if v is None or r.startswith(('heap.', 'live.')): continue
        n = walk(v, None)
        if n is not v: X.store[r] = n
def has_iter(s):
    if s == ('Rec', 'iter'): return True
    if not isinstance(s, tuple): return False
    if s[0] == 'Vec': return has_iter(s[1])
    if s[0] == 'Rec': return any(has_iter(x) for k, x in RECS[s[1]])
    return False
@model(*treenames('insert'))
def t_insert(X, fn, this, args):
    t = this.type.strip(); e = elem(this); multi = 'multi' in t.tmpl
    srt, lo, hi, key = tree_fns(t)
    if len(args) == 2 and isinstance(args[0], Ptr):
        # the hint: equal elements are inserted as close to it as the order allows
        if isinstance(args[1], Ptr): raise Unsupported(fn.key)
        x = tv(X, args[1], e); v = rd(X, this)
        if multi and not X.entails(eq(args[0].i, hi(v, key(x)))): raise Unsupported('insertion hint')
    elif len(args) == 1: x = tv(X, args[0], e); v = rd(X, this)
    else: raise Unsupported(fn.key)
    if not multi:
        if X.decide(lt(lo(v, key(x)), hi(v, key(x)))):
            r = Ptr(this, lo(v, key(x))); return r if len(args) == 2 else RecVal(fn.ret.s, {'first': r, 'second': FALSE})
        r = Ptr(this, tree_put(X, this, x))
        return r if len(args) == 2 else RecVal(fn.ret.s, {'first': r, 'second': TRUE})
    return Ptr(this, tree_put(X, this, x))
@model(*treenames('erase'))
def t_erase(X, fn, this, args):
    a = args[0] if isinstance(args[0], Ptr) else val(X, args[0])
    if len(args) == 1 and isinstance(a, Ptr):
        tree_del(X, this, a.i); return Ptr(this, a.i)
    raise Unsupported(fn.key)
@model('std::map::operator[]')
def t_index(X, fn, this, args):
    srt, lo, hi, key = tree_fns(this.type); v = rd(X, this); t = this.type.strip(); x = tkey(X, this, args[0])
    e = elem(this); vt = t.targs[1]
    if X.decide(lt(lo(v, x), hi(v, x))): p = lo(v, x)
    else:
        d = to_term(X.init_field(vt, None) if vt.k == 'rec' else X.zero_val(vt), vt)
        p = tree_put(X, this, to_term(RecVal(e.s, {'first': x, 'second': d}), e))
    return this.index(p, e).field('second', vt)
@model(*seqnames('push_front'))
def push_front(X, fn, this, args):
    x = tv(X, args[0], elem(this)); v = rd(X, this)
    setlen(X, this, vcat(vlit(v.sort[1], [x]), v))
# ---- iterators ------------------------------------------------------------------
@ctor(*ITN)
def c_iter(X, fn, t, args):
    if not args: return Opaque('singular iterator')
    v = val(X, args[0])
    if isinstance(v, Ptr):
        if t.tmpl == 'std::reverse_iterator' and not v.rev: return Ptr(v.c, v.i, v.nul, True)
        return v
    return v if isinstance(v, Opaque) else None
@model(*itnames('operator*', 'operator->'))
def it_deref(X, fn, this, args):
    p = X.read(this)
    e = seqelem(p.c.type) if isinstance(p, Ptr) else None
    lv = X.deref(p, e)
    return lv if fn.n == 'operator*' else X.addr_obj(lv)
@model(*itnames('operator++', 'operator--'))
def it_inc(X, fn, this, args):
    p = X.read(this)
    if not isinstance(p, Ptr): raise Unsupported('++ on %r' % (p,))
    X.write(this, X.ptradd(p, 1 if fn.n == 'operator++' else -1))
    return p if args else this
@model(*itnames('operator+', 'operator-', 'operator+=', 'operator-='))
def it_add(X, fn, this, args):
    p = X.read(this); b = val(X, args[0]); op = fn.n.replace('operator', '')
    if isinstance(b, Ptr): return X.ptrop('-', p, b)
    d = X.asint(b)
    q = X.ptradd(p, d if op[0] == '+' else sub(0, d))
    if op in ('+=', '-='): X.write(this, q); return this
    return q
@model(*itnames('operator[]'))
def it_idx(X, fn, this, args):
    p = X.read(this); return X.deref(X.ptradd(p, X.asint(val(X, args[0]))), seqelem(p.c.type))
@model(*itnames('operator='))
def it_asg(X, fn, this, args): X.write(this, val(X, args[0])); return this
@model(*itnames('base'))
def it_base(X, fn, this, args):
    p = X.read(this); return Ptr(p.c, p.i, p.nul)
@model(*itnames('operator==', 'operator!='))
def it_eq(X, fn, this, args): return X.ptrop(fn.n.replace('operator', ''), X.read(this), val(X, args[0]))
@model(*['__gnu_cxx::operator' + o for o in ('==', '!=', '<', '>', '<=', '>=', '-', '+')])
def it_cmp(X, fn, this, args):
    a = val(X, args[0]); b = val(X, args[1]); return X.ptrop(fn.n.replace('operator', ''), a, b)
@model('std::_Bit_reference::operator bool')
def bit_get(X, fn, this, args): return X.read(this)
@model('std::_Bit_reference::operator=')
def bit_set(X, fn, this, args):
    X.write(this, X.asbool(val(X, args[0]))); return this
@model('std::distance')
def distance(X, fn, this, args): return X.ptrop('-', args[1], args[0])
# ---- algorithms -----------------------------------------------------------------
@model('std::swap')
def a_swap(X, fn, this, args):
    a = X.read(args[0]); b = X.read(args[1]); X.write(args[0], b); X.write(args[1], a)
@model('std::min', 'std::max')
def a_min(X, fn, this, args):
    if len(args) != 2: raise Unsupported(fn.key)
    a = val(X, args[0]); b = val(X, args[1])
    if not (isinstance(a, Term) and a.sort == 'Int'): raise Unsupported(fn.key)
    if fn.n == 'min': return args[1] if X.decide(lt(b, a)) else args[0]
    return args[1] if X.decide(lt(a, b)) else args[0]
def rng(X, a, b):
    if not (isinstance(a, Ptr) and isinstance(b, Ptr) and a.c.same(b.c)): raise Unsupported('range')
    v = X.read(a.c)
    X.oblige(conj(le(0, a.i), le(a.i, b.i), le(b.i, vlen(v))), 'valid range')
    return v, a.i, b.i
@model('std::find')
def a_find(X, fn, this, args):
    v, i, j = rng(X, args[0], args[1])
    x = tv(X, args[2], seqelem(args[0].c.type))
    if j is vlen(v): return args[0].at(vfind(v, x, i))
    w = vsub(v, 0, j)
    return args[0].at(vfind(w, x, i))
@model('std::_V2::rotate', 'std::rotate')
def a_rotate(X, fn, this, args):
    v, i, j = rng(X, args[0], args[2]); m = args[1].i
    X.oblige(conj(le(i, m), le(m, j)), 'valid range')
    w = vcat(vcat(vsub(v, 0, i), vcat(vsub(v, m, sub(j, m)), vsub(v, i, sub(m, i)))), vsub(v, j, sub(vlen(v), j)))
    X.write(args[0].c, w)
    return args[0].at(add(i, sub(j, m)))
def elt(a, b):
    """a < b as the algorithms without a comparison function compare elements"""
    if a.sort == 'Int': return lt(a, b)
    if a.sort == ('Vec', 'Int'): return lexlt(a, b)
    raise Unsupported('order of %s' % (a.sort,))
def vsort(v):
    s = v.sort; nm = 'vsort_' + ss(s[1]); f = declare(nm, (s,), s)
    if nm not in _ax_done:
        _ax_done.add(nm); e = s[1]
        has = lambda w, x: lt(vfind(w, x, num(0)), vlen(w))
        vfind(v, default(e), num(0)); elt(default(e), default(e))
        A = lambda n, g: _lib().add(nm + n, g, [nm], 'definition')
        A('_len', forall([s], lambda v: eq(vlen(f(v)), vlen(v)), pats=lambda v: [[f(v)]]))
        A('_mem', forall([s, e], lambda v, x: eq(has(f(v), x), has(v, x)), pats=lambda v, x: [[vfind(f(v), x, num(0))], [f(v), vfind(v, x, num(0))]]))
        # every element comes from somewhere, and goes somewhere
        src = declare(nm + '_src', (s, 'Int'), 'Int'); dst = declare(nm + '_dst', (s, 'Int'), 'Int')
        A('_src', forall([s, 'Int'], lambda v, k: imp(conj(le(0, k), lt(k, vlen(v))), conj(le(0, src(v, k)), lt(src(v, k), vlen(v)), eq(vget(f(v), k), vget(v, src(v, k))), eq(dst(v, src(v, k)), k))), pats=lambda v, k: [[vget(f(v), k)]]))
        A('_dst', forall([s, 'Int'], lambda v, k: imp(conj(le(0, k), lt(k, vlen(v))), conj(le(0, dst(v, k)), lt(dst(v, k), vlen(v)), eq(vget(f(v), dst(v, k)), vget(v, k)), eq(src(v, dst(v, k)), k))), pats=lambda v, k: [[f(v), vget(v, k)]]))
        A('_ord', forall([s, 'Int', 'Int'], lambda v, i, j: imp(conj(le(0, i), lt(i, j), lt(j, vlen(v))), mk_not(elt(vget(f(v), j), vget(f(v), i)))), pats=lambda v, i, j: [[vget(f(v), i), vget(f(v), j)]]))
    return f(v)
@model('std::sort', 'std::stable_sort')
def a_sort(X, fn, this, args):
    if len(args) != 2: raise Unsupported(fn.key)
    v, i, j = rng(X, args[0], args[1])
    if not (X.entails(eq(i, 0)) and X.entails(eq(j, vlen(v)))): raise Unsupported('sort of a part')
    w = vsort(v); X.write(args[0].c, w)
    X.assume(*type_facts(w, args[0].c.type))
def vuniq(v):
    """v without the elements equal to their predecessor"""
    s = v.sort; nm = 'vuniq_' + ss(s[1]); f = declare(nm, (s,), s)
    if nm not in _ax_done:
        _ax_done.add(nm); e = s[1]
        has = lambda w, x: lt(vfind(w, x, num(0)), vlen(w)); vfind(v, default(e), num(0))
        A = lambda n, g: _lib().add(nm + n, g, [nm], 'definition')
        src = declare(nm + '_src', (s, 'Int'), 'Int')
        A('_len', forall([s], lambda v: conj(le(0, vlen(f(v))), le(vlen(f(v)), vlen(v)), imp(ge(vlen(v), 1), ge(vlen(f(v)), 1))), pats=lambda v: [[f(v)]]))
        A('_mem', forall([s, e], lambda v, x: eq(has(f(v), x), has(v, x)), pats=lambda v, x: [[vfind(f(v), x, num(0))], [f(v), vfind(v, x, num(0))]]))
        A('_src', forall([s, 'Int'], lambda v, k: imp(conj(le(0, k), lt(k, vlen(f(v)))), conj(le(k, src(v, k)), lt(src(v, k), vlen(v)), eq(vget(f(v), k), vget(v, src(v, k))))), pats=lambda v, k: [[vget(f(v), k)]]))
        A('_ne', forall([s, 'Int', 'Int'], lambda v, i, j: imp(conj(le(0, i), eq(j, add(i, 1)), lt(j, vlen(f(v)))), ne(vget(f(v), i), vget(f(v), j))), pats=lambda v, i, j: [[vget(f(v), i), vget(f(v), j)]]))
    return f(v)
@model('std::unique')
def a_unique(X, fn, this, args):
    if len(args) != 2: raise Unsupported(fn.key)
    v, i, j = rng(X, args[0], args[1])
    if not (X.entails(eq(i, 0)) and X.entails(eq(j, vlen(v)))): raise Unsupported('unique of a part')
    u = vuniq(v); w = mkvec(vlen(v), X.freshvar('uniq', ('Array', v.sort[1])))
    X.assume(le(0, vlen(u)), le(vlen(u), vlen(v)), eq(vsub(w, 0, vlen(u)), u)); X.assume(*type_facts(w, args[0].c.type)); X.assume(*type_facts(u, args[0].c.type))
    X.write(args[0].c, w)
    return args[0].at(vlen(u))
@model('std::reverse')
def a_reverse(X, fn, this, args):
    raise Unsupported(fn.key)
@model('std::copy')
def a_copy(X, fn, this, args):
    v, i, j = rng(X, args[0], args[1]); o = args[2]
    if isinstance(o, InsertIter) and o.kind == 'back':
        w = X.read(o.lv); setlen(X, o.lv, vcat(w, vsub(v, i, sub(j, i)))); return o
    if isinstance(o, Ptr) and not o.rev:
        w = X.read(o.c); n = sub(j, i)
        X.oblige(conj(le(0, o.i), le(add(o.i, n), vlen(w))), 'copy within bounds')
        X.write(o.c, vcat(vcat(vsub(w, 0, o.i), vsub(v, i, n)), vsub(w, add(o.i, n), sub(vlen(w), add(o.i, n)))))
        return o.at(add(o.i, n))
    raise Unsupported(fn.key)
@model('std::back_inserter')
def a_backins(X, fn, this, args): return InsertIter('back', args[0])
@ctor('std::back_insert_iterator')
def c_backins(X, fn, t, args):
    v = val(X, args[0])
    if isinstance(v, InsertIter): return v
    return None
@model('std::back_insert_iterator::operator=')
def bi_asg(X, fn, this, args):
    b = X.read(this)
    if not isinstance(b, InsertIter): raise Unsupported(fn.key)
    a = val(X, args[0])
    if isinstance(a, InsertIter): X.write(this, a); return this
    w = X.read(b.lv); e = seqelem(b.lv.type)
    setlen(X, b.lv, vpush(w, to_term(a, e))); return this
@model('std::back_insert_iterator::operator*', 'std::back_insert_iterator::operator++')
def bi_id(X, fn, this, args): return this
# ---- C library --------------------------------------------------------------------
def inset(x, *rs): return disj(*[conj(le(a, x), le(x, b)) for a, b in rs])
def ctype(name, *rs):
    @model(name, 'std::' + name)
    def f(X, fn, this, args):
        x = X.asint(val(X, args[0]))
        X.oblige(conj(le(-128, x), le(x, 255)), name + ' argument')
        return ite(inset(x, *rs), 1, 0)
ctype('isdigit', (48, 57)); ctype('isspace', (9, 13), (32, 32)); ctype('isupper', (65, 90)); ctype('islower', (97, 122))
ctype('isalpha', (65, 90), (97, 122)); ctype('isalnum', (48, 57), (65, 90), (97, 122)); ctype('isxdigit', (48, 57), (65, 70), (97, 102))
@model('toupper', 'std::toupper')
def c_toupper(X, fn, this, args):
    x = X.asint(val(X, args[0])); return ite(inset(x, (97, 122)), sub(x, 32), x)
@model('tolower', 'std::tolower')
def c_tolower(X, fn, this, args):
    x = X.asint(val(X, args[0])); return ite(inset(x, (65, 90)), add(x, 32), x)
@model('strlen', 'std::strlen')
def c_strlen(X, fn, this, args):
    p = X.nonnull(args[0]); v = X.read(p.c); X.oblige(conj(le(0, p.i), le(p.i, vlen(v))), 'access within bounds')
    n = cstrlen(v, p.i) if v not in X.old.get('nonul', ()) else sub(vlen(v), p.i)
    if not p.nul: X.oblige(lt(add(p.i, n), vlen(v)), 'C string is terminated')
    return n
@model('strchr', 'std::strchr')
def c_strchr(X, fn, this, args):
    p = X.nonnull(args[0]); v = X.read(p.c); c = X.asint(val(X, args[1]))
    n = c_strlen(X, fn, None, [p])
    # conversion to char
    c = X.conv(c, _CH)
    if X.decide(eq(c, 0)): return p.at(add(p.i, n))
    w = vsub(v, 0, add(p.i, n)) if p.nul is False or n is not sub(vlen(v), p.i) else v
    r = vfind(w, c, p.i)
    return MaybePtr(lt(r, vlen(w)), p.at(r))
class _C:
    k = 'int'; w = 8; sg = 1; s = 'char'; isint = True
_CH = _C()
@model('__assert_fail')
def c_assert(X, fn, this, args):
    X.oblige(FALSE, 'assertion holds')
    from .exec import PathEnd
    raise PathEnd()
@model('abort', 'std::abort', 'exit')
def c_abort(X, fn, this, args):
    from .exec import PathEnd
    X.oblige(FALSE, 'abort is unreachable'); raise PathEnd()
# ---- streams (output only) ----------------------------------------------------------
@model('std::operator<<', 'std::basic_ostream::operator<<')
def os_put(X, fn, this, args):
    if this is not None: s, a, t = this, args[0], fn.ps[0]
    else: s, a, t = args[0], args[1], fn.ps[1]
    st = X.read(s); a = val(X, a); t = t.strip(); b = st.f['buf']
    if t.k == 'ptr' or t.tmpl == 'std::basic_string': b2 = vcat(b, str_of(X, a))
    elif t.k == 'int' and t.w == 8: b2 = vpush(b, a)
    elif t.isint:
        f = declare('decimal', ('Int',), VI); b2 = vcat(b, f(X.asint(a)))
        X.assume(conj(ge(vlen(f(X.asint(a))), 1), le(vlen(f(X.asint(a))), 21)))
    else: raise Unsupported(fn.key)
    X.assume(le(vlen(b2), LIM))
    X.write(s, st.set('buf', b2)); return s
@model('std::basic_ostringstream::str', 'std::basic_stringstream::str')
def oss_str(X, fn, this, args):
    if args: raise Unsupported(fn.key)
    return X.read(this).f['buf']
# next / previous arrangement in lexicographic order of v[i..j)
npm = declare('npm', (VI, 'Int', 'Int'), VI); npend = declare('npend', (VI, 'Int', 'Int'), 'Bool')
ppm = declare('ppm', (VI, 'Int', 'Int'), VI); ppend = declare('ppend', (VI, 'Int', 'Int'), 'Bool')
@model('std::next_permutation', 'std::prev_permutation')
def a_nextperm(X, fn, this, args):
    v, i, j = rng(X, args[0], args[1])
    if v.sort != VI or len(args) > 2: raise Unsupported(fn.key)
    nxt = 'next_' in fn.gq
    # (at the last arrangement the library function puts back the first one; that value is not modelled)
    w = X.freshvar('perm', VI); X.assume(eq(vlen(w), vlen(v)))
    last = (npend if nxt else ppend)(v, i, j)
    X.write(args[0].c, ite(last, w, (npm if nxt else ppm)(v, i, j)))
    return mk_not(last)
