"""Run-time values, lvalues and the mapping from C++ types to sorts."""
from .terms import *
from . import terms as tm

LIM = 2**28            # assumed upper bound on the number of elements in any container

class Unsupported(Exception): pass

class RecVal:
    __slots__ = ('name', 'f')
    def __init__(self, name, f): self.name = name; self.f = f
    def set(self, k, v):
        d = dict(self.f); d[k] = v; return RecVal(self.name, d)
    def __repr__(self): return '%s{%s}' % (self.name, ', '.join('%s: %r' % p for p in self.f.items()))

class LV:
    """an object: a root in the store plus a path of fields and element indices"""
    __slots__ = ('root', 'path', 'type')
    def __init__(self, root, path, type): self.root = root; self.path = path; self.type = type
    def field(self, name, type): return LV(self.root, self.path + (('f', name, None),), type)
    def index(self, i, type): return LV(self.root, self.path + (('i', T(i), type),), type)
    def same(self, o): return self.root == o.root and len(self.path) == len(o.path) and all(a[0] == b[0] and (a[1] is b[1] if a[0] == 'i' else a[1] == b[1]) for a, b in zip(self.path, o.path))
    def key(self): return (self.root,) + tuple((p[0], p[1].id if p[0] == 'i' else p[1]) for p in self.path)
    def __repr__(self): return 'LV(%s%s)' % (self.root, ''.join('.' + p[1] if p[0] == 'f' else '[%r]' % p[1] for p in self.path))

class Ptr:
    """pointer or iterator into a sequence"""
    __slots__ = ('c', 'i', 'nul', 'rev')
    def __init__(self, c, i, nul=False, rev=False): self.c = c; self.i = T(i); self.nul = nul; self.rev = rev
    def at(self, i): return Ptr(self.c, i, self.nul, self.rev)
    def __repr__(self): return 'Ptr(%r,%r%s)' % (self.c, self.i, ',rev' if self.rev else '')

class Obj:
    """pointer to a single object"""
    __slots__ = ('lv',)
    def __init__(self, lv): self.lv = lv
    def __repr__(self): return '&%r' % self.lv
class HP:
    """pointer to an object on the heap: objects of one type are numbered from 1, 0 is the null pointer"""
    __slots__ = ('t', 'id')
    def __init__(self, t, id): self.t = t; self.id = T(id)
    def __repr__(self): return 'HP(%s,%r)' % (self.t.s, self.id)
class FP:
    """function pointer held in an object: functions are numbered from 1, 0 is the null pointer"""
    __slots__ = ('t', 'id')
    def __init__(self, t, id): self.t = t; self.id = T(id)
    def __repr__(self): return 'FP(%r)' % (self.id,)
FNNO = {}
def fnno(key):
    """the number of a named function"""
    return num(FNNO.setdefault(key, 1000000 + len(FNNO)))
ITER_HOME = {}     # C++ iterator type -> (record type name, field name): iterators into that field of heap objects
class NullT:
    def __repr__(self): return 'null'
Null = NullT()
class FnVal:
    def __init__(self, fn): self.fn = fn
class Opaque:
    """a value the verifier carries around but knows nothing about"""
    def __init__(self, why): self.why = why
class IterPair: pass
class MaybePtr:
    """cond ? p : null"""
    def __init__(self, c, p): self.c = c; self.p = p
class InsertIter:
    """back_inserter / ostream_iterator"""
    def __init__(self, kind, lv): self.kind = kind; self.lv = lv

SEQ = ('std::vector', 'std::list', 'std::deque', 'std::basic_string', 'std::string', 'std::initializer_list')
def seqelem(t):
    """element Type of a sequence type, 'char' for strings; None if not a sequence"""
    if t.k == 'array': return t.to
    if t.k == 'rec' and t.tmpl in SEQ: return t.targs[0]
    if t.k == 'rec' and t.tmpl in ('std::set', 'std::multiset'): return t.targs[0]
    if t.k == 'rec' and t.tmpl in ('std::map', 'std::multimap'): return MapPair(t)
    return None
_mp = {}
def MapPair(t):
    """value_type of a map: std::pair<const K, V>"""
    r = _mp.get(t.s)
    if r is None: r = _mp[t.s] = _MapPair(t)
    return r
class _MapPair:
    """stands for the Type std::pair<const K, V>"""
    k = 'rec'; const = False; isref = False; isint = False; tmpl = 'std::pair'; rec = None; w = None; sg = None
    def __init__(self, t):
        self.targs = [t.targs[0], t.targs[1]]; self.d = {}
        self.s = 'std::pair<const %s, %s>' % (t.targs[0].s, t.targs[1].s)
    def strip(self): return self
def is_iter(t):
    if t.k == 'ptr': return True
    return t.k == 'rec' and t.tmpl in ('__gnu_cxx::__normal_iterator', 'std::reverse_iterator', 'std::_List_iterator', 'std::_List_const_iterator', 'std::_Rb_tree_const_iterator', 'std::_Rb_tree_iterator')
def is_stream(t):
    return t.k == 'rec' and t.tmpl in ('std::basic_ostream', 'std::basic_ostringstream', 'std::basic_stringstream', 'std::basic_istream', 'std::basic_istringstream', 'std::basic_ios', 'std::ios_base')

_sorts = {}
def comps(t):
    """components of a class type: [(key, Type, init)]"""
    if t.tmpl == 'std::pair': return [('first', t.targs[0], None), ('second', t.targs[1], None)]
    r = t.rec
    if r is None or not r.repo: raise Unsupported('class ' + t.s)
    out = [('@' + b.s, b, None) for b in r.bases if not is_empty(b)]
    out += [(n, ft, i) for n, ft, i in r.fields]
    return out
EMPTY = ('std::iterator', 'std::unary_function', 'std::binary_function')
def is_empty(t):
    if t.k != 'rec': return False
    if t.tmpl in EMPTY: return True
    if seqelem(t) is not None or is_iter(t) or is_stream(t) or t.tmpl == 'std::pair': return False
    if t.rec is None or not t.rec.repo: return False
    return not comps(t)

def sort_of(t):
    t = t.strip()
    s = _sorts.get(t.s)
    if s is None:
        s = _sorts[t.s] = _sort_of(t)
    return s
def _sort_of(t):
    if t.k in ('int', 'enum'): return 'Int'
    if t.k == 'bool': return 'Bool'
    if t.k == 'float': return ('U', 'float')
    e = seqelem(t)
    if e is not None: return ('Vec', sort_of(e))
    if t.k == 'ptr' and (t.to.k in ('rec', 'fn') or t.to.k == 'int' and t.to.w != 8): return 'Int'
    if is_iter(t) and t.s in ITER_HOME:
        RECS['iter'] = [('own', 'Int'), ('pos', 'Int')]
        return ('Rec', 'iter')
    if t.k == 'rec' and (t.tmpl == 'std::pair' or (t.rec is not None and t.rec.repo)) and not is_stream(t):
        cs = comps(t)
        if len(cs) == 1: return sort_of(cs[0][1])
        name = t.s
        ss = [(k, sort_of(ct)) for k, ct, _ in sorted(cs, key=lambda x: x[0])]
        RECS[name] = ss
        return ('Rec', name)
    raise Unsupported('no sort for type ' + t.s)

def has_sort(t):
    try: sort_of(t); return True
    except Unsupported: return False

def canon(t):
    """objects of a class that adds no member to its one base are kept among those of the base"""
    while t.k == 'rec' and t.rec is not None and t.rec.repo and seqelem(t) is None and not is_iter(t) and not is_stream(t):
        cs = comps(t)
        if len(cs) != 1 or not cs[0][0].startswith('@'): break
        t = cs[0][1]
    return t
def heap_lv(t, id):
    t = canon(t); return LV('heap.' + t.s, (('i', T(id), t),), t)
def from_term(x, t):
    t = t.strip()
    if t.k == 'ptr': return FP(t.to, x) if t.to.k == 'fn' else HP(t.to, x)
    if is_iter(t) and t.s in ITER_HOME:
        ot, fld, ft = ITER_HOME[t.s]
        return Ptr(heap_lv(ot, recget(x, 'own')).field(fld, ft), recget(x, 'pos'))
    if t.k == 'rec' and seqelem(t) is None:
        cs = comps(t)
        if len(cs) == 1: return RecVal(t.s, {cs[0][0]: from_term(x, cs[0][1])})
        return RecVal(t.s, {k: from_term(recget(x, k), ct) for k, ct, _ in cs})
    return x
def to_term(v, t):
    t = t.strip()
    if isinstance(v, Term): return v
    if isinstance(v, (HP, FP)): return v.id
    if v is Null: return num(0)
    if isinstance(v, FnVal): return fnno(v.fn.key)
    if isinstance(v, Obj) and v.lv.root.startswith('heap.') and len(v.lv.path) == 1: return v.lv.path[0][1]
    if isinstance(v, Ptr) and is_iter(t) and t.s in ITER_HOME:
        if not (v.c.root.startswith('heap.') and len(v.c.path) == 2): raise Unsupported('iterator into something that is not on the heap')
        sort_of(t); return mkrec('iter', [v.c.path[0][1], v.i])
    if isinstance(v, RecVal):
        cs = comps(t)
        if len(cs) == 1: return to_term(v.f[cs[0][0]], cs[0][1])
        sort_of(t)
        return mkrec(t.s, [to_term(v.f[k], ct) for k, ct, _ in sorted(cs, key=lambda x: x[0])])
    raise Unsupported('value of type %s has no term: %r' % (t.s, v))

def int_range(t):
    if t.k == 'bool': return (0, 1)
    w = t.w or 32
    if t.sg: return (-2**(w - 1), 2**(w - 1) - 1)
    return (0, 2**w - 1)

def type_facts(x, t, deep=True):
    """facts about every value of C++ type t held in term x (ranges, canonical form)"""
    t = t.strip(); out = []
    if t.k in ('int', 'enum'):
        lo, hi = int_range(t); out += [le(lo, x), le(x, hi)]
    elif t.k == 'ptr': out.append(le(0, x))
    elif is_iter(t): pass
    elif t.k == 'rec' or t.k == 'array':
        e = seqelem(t)
        if e is not None:
            n = vlen(x)
            if t.k == 'array': out.append(eq(n, t.d['n']))
            else: out += [le(0, n), le(n, LIM)]
            if deep:
                out.append(forall(1, lambda k: imp(disj(lt(k, 0), ge(k, n)), eq(vget(x, k), default(sort_of(e)))), pats=lambda k: [[vget(x, k)]]))
                out += elem_facts(x, e)
            if t.tmpl in ('std::set', 'std::multiset', 'std::map', 'std::multimap') and deep: out += set_facts(x, t)
        else:
            cs = comps(t)
            if len(cs) == 1: out += type_facts(x, cs[0][1], deep)
            else:
                for k, ct, _ in cs: out += type_facts(recget(x, k), ct, deep)
    return out
def set_facts(x, t): return []
def elem_facts(x, e):
    e = e.strip()
    if e.k in ('int', 'enum'):
        lo, hi = int_range(e)
        return [forall(1, lambda k: conj(le(lo, vget(x, k)), le(vget(x, k), hi)), pats=lambda k: [[vget(x, k)]])]
    if e.k == 'bool': return []
    return [lift_forall(lambda k: f(k), lambda k: vget(x, k)) for f in _facts_fns(e)]
def _facts_fns(e):
    """one function element -> fact for each conjunct of type_facts"""
    probe = bvar('probe', sort_of(e))
    fs = type_facts(probe, e, True)
    return [ (lambda f: (lambda el: subst(f, {probe: el})))(f) for f in fs ]
def lift_forall(_f, el):
    n = 'lf%d' % next(_lf)
    k = bvar(n, 'Int')
    f = _f(el(k))
    if f.op == 'forall':
        vs, body, pats = qparts(f)
        return quant('forall', [k] + list(vs), body, pats)
    return quant('forall', [k], f, [[el(k)]])
import itertools
_lf = itertools.count()
