"""Hash-consed first-order terms with light normalisation, and SMT-LIB printing.

Sorts: 'Int' | 'Bool' | ('Array', S) (index sort Int) | ('Vec', S) | ('Rec', name) | ('U', name)
A ('Vec', S) value is a finite sequence in canonical form: a length and an
array that is the default value of S outside [0,len), so that equality of
terms is equality of sequences.
"""
import itertools

class Term:
    __slots__ = ('op', 'args', 'data', 'sort', 'id', 'size', 'hasb', '_fv', '_syms')
    def __repr__(self):
        return show(self)
    def __eq__(self, o): return self is o
    def __hash__(self): return self.id
    # sugar
    def __add__(a, b): return add(a, b)
    def __radd__(a, b): return add(b, a)
    def __sub__(a, b): return sub(a, b)
    def __rsub__(a, b): return sub(b, a)
    def __mul__(a, b): return mul(a, b)
    def __rmul__(a, b): return mul(b, a)
    def __neg__(a): return sub(0, a)
    def __le__(a, b): return le(a, b)
    def __lt__(a, b): return lt(a, b)
    def __ge__(a, b): return le(b, a)
    def __gt__(a, b): return lt(b, a)

_tab = {}
_ctr = itertools.count(1)
RECS = {}      # rec name -> [(field, sort)]
FUNS = {}      # uninterpreted function name -> (argsorts, ressort)

def _mk(op, args, sort, data=None):
    k = (op, tuple(a.id for a in args), data, sort)
    t = _tab.get(k)
    if t is None:
        t = Term.__new__(Term)
        t.op = op; t.args = tuple(args); t.data = data; t.sort = sort
        t.id = next(_ctr); t._fv = None; t._syms = None
        t.size = 1 + sum(a.size for a in args)
        t.hasb = (op == 'bvar') or any(a.hasb for a in args)
        _tab[k] = t
    return t

def T(x):
    if isinstance(x, Term): return x
    if x is True: return TRUE
    if x is False: return FALSE
    if isinstance(x, int): return num(x)
    raise TypeError(repr(x))

def num(n): return _mk('int', (), 'Int', int(n))
TRUE = _mk('true', (), 'Bool')
FALSE = _mk('false', (), 'Bool')
def var(name, sort): return _mk('var', (), sort, name)
def bvar(name, sort): return _mk('bvar', (), sort, name)
def is_num(t): return t.op == 'int'

# ---- linear arithmetic -----------------------------------------------------
def lin_parts(t):
    if t.op == 'int': return t.data, {}
    if t.op == 'lin': return t.data[0], dict(zip(t.args, t.data[1]))
    return 0, {t: 1}

def mk_lin(c, m):
    items = sorted(((t, k) for t, k in m.items() if k != 0), key=lambda p: p[0].id)
    if not items: return num(c)
    if c == 0 and len(items) == 1 and items[0][1] == 1: return items[0][0]
    return _mk('lin', tuple(t for t, _ in items), 'Int', (c, tuple(k for _, k in items)))

def add(*xs):
    c = 0; m = {}
    for x in xs:
        x = T(x); assert x.sort == 'Int', (x, x.sort)
        k, p = lin_parts(x); c += k
        for t, q in p.items(): m[t] = m.get(t, 0) + q
    return mk_lin(c, m)
def scale(k, t):
    c, m = lin_parts(t)
    return mk_lin(c * k, {x: q * k for x, q in m.items()})
def sub(a, b): return add(T(a), scale(-1, T(b)))
def mul(a, b):
    a = T(a); b = T(b)
    if a.op == 'int': return scale(a.data, b)
    if b.op == 'int': return scale(b.data, a)
    if a.op == 'lin' or b.op == 'lin':
        # distribute
        ca, ma = lin_parts(a); cb, mb = lin_parts(b)
        if len(ma) * len(mb) <= 9:
            r = num(ca * cb)
            for x, k in ma.items(): r = add(r, scale(k * cb, x))
            for y, k in mb.items(): r = add(r, scale(k * ca, y))
            for x, k in ma.items():
                for y, l in mb.items(): r = add(r, scale(k * l, _mulat(x, y)))
            return r
    return _mulat(a, b)
def _mulat(a, b):
    if a.id > b.id: a, b = b, a
    return _mk('mul', (a, b), 'Int')

def div(a, b):
    """SMT-LIB div (floor for positive divisor)"""
    a = T(a); b = T(b)
    if a.op == 'int' and b.op == 'int' and b.data != 0:
        q = a.data // b.data if b.data > 0 else -(a.data // -b.data)
        return num(q)
    if b is num(1): return a
    if b.op != 'int': return declare('ediv', ('Int', 'Int'), 'Int')(a, b)
    return _mk('div', (a, b), 'Int')
def mod(a, b):
    a = T(a); b = T(b)
    if a.op == 'int' and b.op == 'int' and b.data != 0: return num(a.data % abs(b.data))
    if b is num(1): return num(0)
    if b.op == 'int' and b.data > 0:
        n = b.data
        c, m = lin_parts(a)
        if any(k % n != k for k in m.values()) or c % n != c:
            return mod(mk_lin(c % n, {x: k % n for x, k in m.items()}), b)
        if a.op == 'mod' and a.args[1] is b: return a
    if b.op != 'int': return declare('emod', ('Int', 'Int'), 'Int')(a, b)
    return _mk('mod', (a, b), 'Int')

def le(a, b):
    d = sub(b, a)
    if d.op == 'int': return TRUE if d.data >= 0 else FALSE
    # normalise by gcd of coefficients
    if d.op == 'lin':
        from math import gcd
        g = 0
        for k in d.data[1]: g = gcd(g, abs(k))
        if g > 1:
            c, m = lin_parts(d)
            d = mk_lin(c // g, {x: k // g for x, k in m.items()})
    return _mk('ge0', (d,), 'Bool')
def lt(a, b): return le(add(a, 1), b)
def ge(a, b): return le(b, a)
def gt(a, b): return lt(b, a)

def eq(a, b):
    a = T(a); b = T(b)
    if a is b: return TRUE
    assert a.sort == b.sort, (a, a.sort, b, b.sort)
    if a.sort == 'Int':
        d = sub(a, b)
        if d.op == 'int': return TRUE if d.data == 0 else FALSE
        if a.op == 'ite' and b.op == 'int' and a.args[1].op == 'int' and a.args[2].op == 'int':
            t = a.args[1].data == b.data; e = a.args[2].data == b.data
            if t and e: return TRUE
            if not t and not e: return FALSE
            return a.args[0] if t else mk_not(a.args[0])
        if b.op == 'ite' and a.op == 'int': return eq(b, a)
        c, m = lin_parts(d)
        if len(m) == 1:
            (x, k), = m.items()
            if c % k: return FALSE
            a, b = x, num(-c // k)
        elif len(m) == 2:
            (x, k), (y, l) = sorted(m.items(), key=lambda p: p[0].id)
            if k == 1 and l == -1: a, b = x, mk_lin(-c, {y: 1})
            elif k == -1 and l == 1: a, b = x, mk_lin(c, {y: 1})
            else: a, b = d, num(0)
        elif a.op == 'lin' and b.op == 'lin': a, b = d, num(0)
    elif a.sort == 'Bool':
        if a is TRUE: return b
        if b is TRUE: return a
        if a is FALSE: return mk_not(b)
        if b is FALSE: return mk_not(a)
    if a.op == 'mk' and b.op == 'mk':
        return conj(*[eq(x, y) for x, y in zip(a.args, b.args)])
    if a.sort != 'Int' and a.id > b.id: a, b = b, a
    return _mk('eq', (a, b), 'Bool')
def ne(a, b): return mk_not(eq(a, b))

# ---- booleans ---------------------------------------------------------------
def mk_not(a):
    a = T(a)
    if a is TRUE: return FALSE
    if a is FALSE: return TRUE
    if a.op == 'not': return a.args[0]
    if a.op == 'ge0':  # not (d>=0)  <=>  -d-1 >= 0
        return _mk('ge0', (sub(scale(-1, a.args[0]), 1),), 'Bool')
    if a.op == 'imp': return conj(a.args[0], mk_not(a.args[1]))
    return _mk('not', (a,), 'Bool')
def conj(*xs):
    out = []; seen = set()
    st = list(reversed(xs))
    while st:
        x = st.pop()
        if isinstance(x, (list, tuple)): st.extend(reversed(x)); continue
        x = T(x)
        if x is TRUE: continue
        if x is FALSE: return FALSE
        if x.op == 'and': st.extend(reversed(x.args)); continue
        if x in seen: continue
        if mk_not(x) in seen: return FALSE
        seen.add(x); out.append(x)
    if not out: return TRUE
    if len(out) == 1: return out[0]
    return _mk('and', out, 'Bool')
def disj(*xs):
    out = []; seen = set()
    st = list(reversed(xs))
    while st:
        x = st.pop()
        if isinstance(x, (list, tuple)): st.extend(reversed(x)); continue
        x = T(x)
        if x is FALSE: continue
        if x is TRUE: return TRUE
        if x.op == 'or': st.extend(reversed(x.args)); continue
        if x in seen: continue
        if mk_not(x) in seen: return TRUE
        seen.add(x); out.append(x)
    if not out: return FALSE
    if len(out) == 1: return out[0]
    return _mk('or', out, 'Bool')
def imp(a, b):
    a = T(a); b = T(b)
    if a is TRUE: return b
    if a is FALSE or b is TRUE: return TRUE
    if b is FALSE: return mk_not(a)
    if a is b: return TRUE
    if b.op == 'imp': return imp(conj(a, b.args[0]), b.args[1])
    return _mk('imp', (a, b), 'Bool')
def iff(a, b): return eq(T(a), T(b))
def ite(c, a, b):
    c = T(c); a = T(a); b = T(b)
    if c is TRUE: return a
    if c is FALSE: return b
    if a is b: return a
    if c.op == 'not': return ite(c.args[0], b, a)
    if a.sort == 'Bool':
        if a is TRUE: return disj(c, b)
        if a is FALSE: return conj(mk_not(c), b)
        if b is TRUE: return disj(mk_not(c), a)
        if b is FALSE: return conj(c, a)
    assert a.sort == b.sort, (a.sort, b.sort)
    return _mk('ite', (c, a, b), a.sort)

# ---- functions, arrays, vectors, records -------------------------------------
def declare(name, argsorts, ressort):
    old = FUNS.get(name)
    assert old is None or old == (tuple(argsorts), ressort), (name, old, argsorts, ressort)
    FUNS[name] = (tuple(argsorts), ressort)
    def f(*a):
        a = [T(x) for x in a]
        assert tuple(x.sort for x in a) == FUNS[name][0], (name, [x.sort for x in a], FUNS[name])
        return _mk('app', a, ressort, name)
    return f
def app(name, *a):
    a = [T(x) for x in a]
    assert tuple(x.sort for x in a) == FUNS[name][0], (name, [x.sort for x in a])
    return _mk('app', a, FUNS[name][1], name)

def select(a, i):
    i = T(i)
    while a.op == 'store':
        j = a.args[1]
        if j is i: return a.args[2]
        d = sub(i, j)
        if d.op == 'int': a = a.args[0]; continue
        break
    if a.op == 'const': return a.args[0]
    if a.op == 'ite' and (a.args[1].op in ('const',) or a.args[2].op in ('const',)):
        return ite(a.args[0], select(a.args[1], i), select(a.args[2], i))
    return _mk('select', (a, i), a.sort[1])
def store(a, i, v):
    i = T(i); v = T(v)
    assert a.sort[1] == v.sort, (a.sort, v.sort)
    if a.op == 'store' and a.args[1] is i: a = a.args[0]
    if v.op == 'select' and v.args[0] is a and v.args[1] is i: return a
    return _mk('store', (a, i, v), a.sort)
def constarr(v):
    v = T(v); return _mk('const', (v,), ('Array', v.sort))

def default(sort):
    if sort == 'Int': return num(0)
    if sort == 'Bool': return FALSE
    if sort[0] == 'Vec': return mkvec(num(0), constarr(default(sort[1])))
    if sort[0] == 'Array': return constarr(default(sort[1]))
    if sort[0] == 'Rec': return _mk('mk', [default(s) for _, s in RECS[sort[1]]], sort)
    if sort[0] == 'U': return var('default_' + sort[1], sort)
    raise ValueError(sort)

def mkvec(n, a):
    n = T(n)
    if n.op == 'sel' and a.op == 'sel' and n.args[0] is a.args[0] and n.data == 0 and a.data == 1: return n.args[0]
    return _mk('mk', (n, a), ('Vec', a.sort[1]))
def vlen(v):
    if v.op == 'mk': return v.args[0]
    if v.op == 'ite': 
        a, b = vlen(v.args[1]), vlen(v.args[2])
        if a is b: return a
    return _mk('sel', (v,), 'Int', 0)
def varr(v):
    if v.op == 'mk': return v.args[1]
    return _mk('sel', (v,), ('Array', v.sort[1]), 1)
def vget(v, i):
    return select(varr(v), i)
def vset(v, i, x): return mkvec(vlen(v), store(varr(v), i, x))
def vpush(v, x): return mkvec(add(vlen(v), 1), store(varr(v), vlen(v), x))
def vpop(v): return mkvec(sub(vlen(v), 1), store(varr(v), sub(vlen(v), 1), default(v.sort[1])))
def vempty(s): return mkvec(num(0), constarr(default(s)))
def vlit(s, items):
    v = vempty(s)
    for x in items: v = vpush(v, x)
    return v
def mkrec(name, vals):
    vals = [T(v) for v in vals]
    assert [v.sort for v in vals] == [s for _, s in RECS[name]], (name, [v.sort for v in vals], RECS[name])
    if vals and all(v.op == 'sel' and v.sort and v.args[0] is vals[0].args[0] and v.data == i for i, v in enumerate(vals)) and vals[0].args[0].sort == ('Rec', name):
        return vals[0].args[0]
    return _mk('mk', vals, ('Rec', name))
def recget(t, field):
    name = t.sort[1]; fs = RECS[name]
    i = [f for f, _ in fs].index(field)
    if t.op == 'mk': return t.args[i]
    if t.op == 'ite' and (t.args[1].op == 'mk' or t.args[2].op == 'mk'):
        return ite(t.args[0], recget(t.args[1], field), recget(t.args[2], field))
    return _mk('sel', (t,), fs[i][1], i)

# ---- quantifiers --------------------------------------------------------------
_q = itertools.count()
def _flatpats(pats):
    return pats
def quant(kind, vs, body, pats=None):
    body = T(body)
    if body is TRUE or body is FALSE: return body
    # drop unused variables
    fv = free_bvars(body)
    vs = [v for v in vs if v in fv]
    if not vs: return body
    pats = tuple(tuple(p) for p in pats) if pats else ()
    pats = tuple(p for p in pats if set(vs) <= set().union(*[free_bvars(x) for x in p])) if pats else ()
    pats = tuple(p for p in pats if not any(_badpat(x) for x in p))
    allp = [x for p in pats for x in p]
    data = (tuple(len(p) for p in pats), len(vs))
    # alpha-normalise variable names by position/depth for hash-consing
    depth = 1 + max([qdepth(body)] + [qdepth(x) for x in allp])
    ren = {}
    for k, v in enumerate(vs):
        ren[v] = bvar('q%d_%d' % (depth, k), v.sort)
    body2 = subst(body, ren); allp2 = [subst(x, ren) for x in allp]
    vs2 = [ren[v] for v in vs]
    return _mk(kind, [body2] + allp2 + vs2, 'Bool', data)
_bp = {}
def _badpat(t):
    r = _bp.get(t.id)
    if r is None: r = _bp[t.id] = t.op in ('ite', 'and', 'or', 'not', 'imp', 'le', 'eq', 'forall', 'exists') or any(_badpat(a) for a in t.args)
    return r
_qd = {}
def qdepth(t):
    r = _qd.get(t.id)
    if r is None:
        if t.op in ('forall', 'exists'):
            nv = t.data[1]
            names = [int(v.data[1:].split('_')[0]) for v in t.args[-nv:]]
            r = max(names + [qdepth(a) for a in t.args[:-nv]])
        elif t.op == 'bvar' and t.data[0] == 'q' and '_' in t.data and t.data[1].isdigit():
            r = int(t.data[1:].split('_')[0])
        else: r = max([qdepth(a) for a in t.args], default=0)
        _qd[t.id] = r
    return r
def forall(sorts, fn, pats=None):
    """forall(['Int','Int'], lambda i,j: body, pats=lambda i,j: [[t1,t2],[t3]])"""
    n = next(_q)
    if isinstance(sorts, int): sorts = ['Int'] * sorts
    vs = [bvar('b%d_%d' % (n, k), s) for k, s in enumerate(sorts)]
    body = fn(*vs)
    return quant('forall', vs, body, pats(*vs) if pats else None)
def exists(sorts, fn, pats=None):
    n = next(_q)
    if isinstance(sorts, int): sorts = ['Int'] * sorts
    vs = [bvar('b%d_%d' % (n, k), s) for k, s in enumerate(sorts)]
    return quant('exists', vs, fn(*vs), pats(*vs) if pats else None)
def qparts(t):
    npat, nv = t.data
    body = t.args[0]; vs = t.args[-nv:]
    rest = t.args[1:-nv]; pats = []; k = 0
    for n in npat: pats.append(rest[k:k + n]); k += n
    return vs, body, pats

def free_bvars(t):
    if t._fv is None:
        if t.op == 'bvar': t._fv = frozenset([t])
        elif not t.hasb: t._fv = frozenset()
        elif t.op in ('forall', 'exists'):
            nv = t.data[1]
            s = frozenset().union(*[free_bvars(a) for a in t.args[:-nv]])
            t._fv = s - frozenset(t.args[-nv:])
        else: t._fv = frozenset().union(*[free_bvars(a) for a in t.args])
    return t._fv

def rebuild(t, args):
    o = t.op
    if o == 'lin': return add(t.data[0], *[scale(k, a) for k, a in zip(t.data[1], args)])
    if o == 'mul': return mul(*args)
    if o == 'div': return div(*args)
    if o == 'mod': return mod(*args)
    if o == 'ge0': return le(0, args[0])
    if o == 'eq': return eq(*args)
    if o == 'not': return mk_not(args[0])
    if o == 'and': return conj(*args)
    if o == 'or': return disj(*args)
    if o == 'imp': return imp(*args)
    if o == 'ite': return ite(*args)
    if o == 'select': return select(*args)
    if o == 'store': return store(*args)
    if o == 'const': return constarr(args[0])
    if o == 'mk':
        if t.sort[0] == 'Vec': return mkvec(*args)
        return mkrec(t.sort[1], args)
    if o == 'sel':
        if args[0].sort[0] == 'Vec': return vlen(args[0]) if t.data == 0 else varr(args[0])
        return recget(args[0], RECS[args[0].sort[1]][t.data][0])
    if o in ('forall', 'exists'):
        npat, nv = t.data; vs = args[-nv:]; rest = args[1:-nv]; pats = []; k = 0
        for n in npat: pats.append(rest[k:k + n]); k += n
        return quant(o, vs, args[0], pats)
    if o == 'app': return _mk('app', args, t.sort, t.data)
    return t

def subst(t, m):
    """simultaneous substitution of (closed-ish) terms; m: Term->Term"""
    cache = {}
    mb = any(k.op == 'bvar' for k in m)
    onlyb = all(k.op == 'bvar' for k in m)
    def go(t):
        r = m.get(t)
        if r is not None: return r
        if not t.args or (onlyb and not t.hasb): return t
        r = cache.get(t)
        if r is None:
            if t.op in ('forall', 'exists') and any(v in m for v in t.args[-t.data[1]:]):
                # inner binder shadows (names are depth-normalised so this means shadowing)
                m2 = {k: v for k, v in m.items() if k not in t.args[-t.data[1]:]}
                r = subst(t, m2) if m2 else t
            else:
                na = [go(a) for a in t.args]
                r = t if all(x is y for x, y in zip(na, t.args)) else rebuild(t, na)
            cache[t] = r
        return r
    return go(t)

def instantiate(q, vals):
    vs, body, _ = qparts(q)
    return subst(body, dict(zip(vs, [T(v) for v in vals])))

def syms(t):
    """set of uninterpreted function names, var names and sorts occurring"""
    if t._syms is None:
        s = set()
        for a in t.args: s |= syms(a)
        if t.op in ('app',): s.add(('f', t.data))
        elif t.op == 'var': s.add(('v', t.data, t.sort))
        if isinstance(t.sort, tuple): s.add(('s', t.sort))
        t._syms = frozenset(s)
    return t._syms

def has_quant(t, _c={}):
    r = _c.get(t.id)
    if r is None:
        r = t.op in ('forall', 'exists') or any(has_quant(a) for a in t.args)
        _c[t.id] = r
    return r

# ---- printing -------------------------------------------------------------------
def sort_name(s):
    if isinstance(s, str): return s
    if s[0] == 'Array': return '(Array Int %s)' % sort_name(s[1])
    if s[0] == 'Vec': return 'Vec_' + mangle(s[1])
    return 'R_' + mang(s[1]) if s[0] == 'Rec' else 'U_' + mang(s[1])
def mangle(s):
    if isinstance(s, str): return s
    if s[0] == 'Array': return 'Arr_' + mangle(s[1])
    if s[0] == 'Vec': return 'Vec_' + mangle(s[1])
    return ('R_' if s[0] == 'Rec' else 'U_') + mang(s[1])
def mang(n):
    return ''.join(c if c.isalnum() or c == '_' else '_' for c in n)
def sname(n):
    return n if all(c.isalnum() or c in '_.!$' for c in n) and not n[0].isdigit() else '|' + n.replace('|', '!').replace('\\', '/') + '|'

def sort_deps(s, out):
    if isinstance(s, str): return
    if s[0] == 'Array': sort_deps(s[1], out)
    elif s[0] == 'Vec':
        if s not in out: sort_deps(s[1], out); 
        if s not in out: out.append(s)
    elif s[0] == 'Rec':
        if s not in out:
            for _, x in RECS[s[1]]: sort_deps(x, out)
        if s not in out: out.append(s)
    elif s[0] == 'U':
        if s not in out: out.append(s)

def sort_decl(s):
    if s[0] == 'U': return '(declare-sort %s 0)' % sort_name(s)
    n = sort_name(s)
    if s[0] == 'Vec':
        return '(declare-datatypes ((%s 0)) (((mk_%s (len_%s Int) (arr_%s (Array Int %s))))))' % (n, n, n, n, sort_name(s[1]))
    return '(declare-datatypes ((%s 0)) (((mk_%s %s))))' % (n, n, ' '.join('(f%d_%s %s)' % (i, n, sort_name(x)) for i, (f, x) in enumerate(RECS[s[1]])))

class Printer:
    def __init__(self, share=6):
        self.cnt = {}; self.defs = []; self.names = {}; self.share = share
    def count(self, ts):
        seen = self.cnt
        st = list(ts)
        while st:
            t = st.pop()
            c = seen.get(t, 0); seen[t] = c + 1
            if c == 0: st.extend(t.args)
    def p(self, t):
        n = self.names.get(t)
        if n: return n
        s = self._p(t)
        if not free_bvars(t) and t.args and self.cnt.get(t, 0) > 1 and t.size > self.share and t.op not in ('mk',):
            n = '$t%d' % len(self.defs)
            self.defs.append('(define-fun %s () %s %s)' % (n, sort_name(t.sort), s))
            self.names[t] = n
            return n
        return s
    def _p(self, t):
        o = t.op; p = self.p
        if o == 'int': return str(t.data) if t.data >= 0 else '(- %d)' % -t.data
        if o == 'true' or o == 'false': return o
        if o == 'var': return sname(t.data)
        if o == 'bvar': return t.data
        if o == 'lin':
            c, ks = t.data; parts = []
            for k, a in zip(ks, t.args):
                s = p(a)
                if k == 1: parts.append(s)
                elif k == -1: parts.append('(- %s)' % s)
                else: parts.append('(* %s %s)' % (str(k) if k >= 0 else '(- %d)' % -k, s))
            if c: parts.append(str(c) if c >= 0 else '(- %d)' % -c)
            return '(+ %s)' % ' '.join(parts) if len(parts) > 1 else parts[0]
        if o == 'ge0':
            # print as lhs <= rhs with positive parts on each side
            d = t.args[0]; c, m = lin_parts(d)
            L = mk_lin(-c if c < 0 else 0, {x: -k for x, k in m.items() if k < 0})
            R = mk_lin(c if c > 0 else 0, {x: k for x, k in m.items() if k > 0})
            return '(<= %s %s)' % (self._p(L) if L.op == 'lin' else p(L), self._p(R) if R.op == 'lin' else p(R))
        m = {'mul': '*', 'div': 'div', 'mod': 'mod', 'eq': '=', 'not': 'not', 'and': 'and', 'or': 'or', 'imp': '=>', 'ite': 'ite', 'select': 'select', 'store': 'store'}.get(o)
        if m: return '(%s %s)' % (m, ' '.join(p(a) for a in t.args))
        if o == 'const': return '((as const %s) %s)' % (sort_name(t.sort), p(t.args[0]))
        if o == 'mk':
            if not t.args: return 'mk_' + sort_name(t.sort)
            return '(mk_%s %s)' % (sort_name(t.sort), ' '.join(p(a) for a in t.args))
        if o == 'sel':
            n = sort_name(t.args[0].sort)
            f = ('len_', 'arr_')[t.data] + n if t.args[0].sort[0] == 'Vec' else 'f%d_%s' % (t.data, n)
            return '(%s %s)' % (f, p(t.args[0]))
        if o == 'app':
            if not t.args: return sname(t.data)
            return '(%s %s)' % (sname(t.data), ' '.join(p(a) for a in t.args))
        if o in ('forall', 'exists'):
            vs, body, pats = qparts(t)
            b = p(body)
            if pats: b = '(! %s %s)' % (b, ' '.join(':pattern (%s)' % ' '.join(p(x) for x in q) for q in pats))
            return '(%s (%s) %s)' % (o, ' '.join('(%s %s)' % (v.data, sort_name(v.sort)) for v in vs), b)
        raise ValueError(o)

def show(t):
    return Printer(10**9)._p(t)

def smt2(assertions, named=None, options=()):
    """assertions: list of (name or None, Term). Returns SMT-LIB text (no check-sat)."""
    pr = Printer()
    pr.count([t for _, t in assertions])
    body = []
    for n, t in assertions:
        s = pr.p(t)
        body.append((len(pr.defs), '(assert (! %s :named %s))' % (s, n) if n else '(assert %s)' % s))
    S = set()
    for _, t in assertions: S |= syms(t)
    sorts = []
    for x in sorted([x[1] for x in S if x[0] == 's'], key=str): sort_deps(x, sorts)
    fs = sorted(x[1] for x in S if x[0] == 'f')
    for f in fs:
        for a in FUNS[f][0]: sort_deps(a, sorts)
        sort_deps(FUNS[f][1], sorts)
    out = list(options)
    out += [sort_decl(s) for s in sorts]
    for f in fs:
        a, r = FUNS[f]
        out.append('(declare-fun %s (%s) %s)' % (sname(f), ' '.join(sort_name(x) for x in a), sort_name(r)))
    vs = sorted({(x[1], x[2]) for x in S if x[0] == 'v'}, key=lambda p: (p[0], str(p[1])))
    for n, s in vs: out.append('(declare-fun %s () %s)' % (sname(n), sort_name(s)))
    di = 0
    for k, s in body:
        out += pr.defs[di:k]; di = k
        out.append(s)
    return '\n'.join(out)
