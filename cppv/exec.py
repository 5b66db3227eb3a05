"""Symbolic execution of extracted C++ function bodies to verification conditions.

One `Path` object executes one control path; `decide` consults / extends a list
of branch decisions and the driver (`explore`) re-executes the function for
every feasible decision list.  Loops are cut at their heads: everything any
path through the body changes is forgotten and the current invariant
candidates are assumed.  A callee with a contract is replaced by its contract;
a callee without one is executed in line.
"""
import sys
from .terms import *
from .vals import *
from .vals import LIM
from . import stl, vals
sys.setrecursionlimit(20000)

class CxxThrow(Exception):
    def __init__(self, tname, val=None): self.tname = tname; self.val = val
class ReturnEx(Exception):
    def __init__(self, val): self.val = val
class BreakEx(Exception): pass
class ContinueEx(Exception): pass
class GotoEx(Exception):
    def __init__(self, l): self.l = l
class PathEnd(Exception): pass
class Restart(Exception): pass

MAXDEPTH = 40

class Obl:
    __slots__ = ('name', 'assume', 'goal', 'kind', 'cand', 'line', 'fn')
    def __init__(s, name, assume, goal, kind, line, fn, cand=None):
        s.name = name; s.assume = assume; s.goal = goal; s.kind = kind; s.cand = cand; s.line = line; s.fn = fn
    def key(s): return (tuple(a.id for a in s.assume), s.goal.id)

class Frame:
    def __init__(self, fn, this): self.fn = fn; self.this = this; self.env = {}; self.loopn = 0; self.objs = []; self.temps = []

class LoopInfo:
    """what is known about one loop (in one inlining context)"""
    def __init__(self): self.mod = {}; self.dropped = set(); self.labels = set(); self.variants = set()

class World:
    """everything shared by the paths of one verification task"""
    def __init__(self, prog, contracts, quick):
        self.prog = prog; self.contracts = contracts; self.quick = quick
        self.loops = {}; self.obls = []; self.oblkeys = set(); self.cands = True
        self.inlined = set(); self.called = set(); self.models = set(); self.skip = None
        self.genv = {}       # global initial values: name -> Val factory
        self.keep = None     # dict loopkey -> set of labels to keep (hints), or None for all
        self.npaths = 0
        self.unroll = {}; self.candterms = {}; self.reach = {}; self.lines = set(); self.heaptypes = {}

class Path:
    def __init__(self, world, prefix):
        self.w = world; self.prefix = prefix; self.pos = 0; self.alts = []
        self.store = {}; self.pc = []; self.pcset = set(); self.frames = []
        self.cnt = {}; self.taken = []; self.line = 0; self.old = {}
        self.suppress = 0; self.inv_ctx = None; self.depth = 0; self.stack = ()
        self.q = world.quick.session(); self.covered = False
        self.gl = {}

    # ---- naming, assumptions, obligations, decisions
    def fresh(self, base):
        n = self.cnt.get(base, 0); self.cnt[base] = n + 1
        return '%s!%d' % (base, n)
    def freshvar(self, base, sort): return var(self.fresh(base), sort)
    def assume(self, *fs):
        for f in fs:
            if isinstance(f, (list, tuple)): self.assume(*f); continue
            f = T(f)
            if f is TRUE: continue
            if f.op == 'and': self.assume(*f.args); continue
            if f in self.pcset: continue
            self.pcset.add(f); self.pc.append(f); self.q.add(f)
            if f is FALSE: raise PathEnd()
    def oblige(self, goal, name, kind='check', cand=None):
        goal = T(goal)
        if self.suppress: return
        if goal is TRUE or goal in self.pcset:
            if cand is None: self.emit(TRUE, name, kind, cand)
            return
        self.emit(goal, name, kind, cand)
        if cand is None: self.assume(goal)
    def reach(self, tag):
        """a point that must not be provably unreachable (guards against vacuous proofs)"""
        if self.suppress: return
        self.w.reach.setdefault(tag, []).append(tuple(self.pc))
    def emit(self, goal, name, kind, cand):
        fn = self.frames[-1].fn.key if self.frames else ''
        if goal is TRUE: o = Obl(name, (), goal, kind, self.line, fn, cand)
        else: o = Obl(name, tuple(self.pc), goal, kind, self.line, fn, cand)
        k = (o.name, o.line, o.cand) + o.key()
        if k not in self.w.oblkeys:
            self.w.oblkeys.add(k); self.w.obls.append(o)
    def decide(self, cond):
        cond = T(cond)
        if cond is TRUE: return True
        if cond is FALSE: return False
        if cond in self.pcset: return True
        if mk_not(cond) in self.pcset: return False
        if self.suppress: raise Unsupported('branch in pure evaluation')
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]; self.pos += 1
            self.taken.append(d)
            self.assume(cond if d else mk_not(cond))
            return d
        self.pos += 1
        t = self.q.sat(cond)
        f = self.q.sat(mk_not(cond))
        if not t and not f: raise PathEnd()
        if t and f: self.alts.append(self.taken + [False])
        d = bool(t)
        self.taken.append(d)
        self.assume(cond if d else mk_not(cond))
        return d
    def entails(self, g):
        g = T(g)
        if g is TRUE or g in self.pcset: return True
        if g is FALSE: return False
        if g.op == 'and': return all(self.entails(x) for x in g.args)
        return self.q.entails(g)

    # ---- store
    def new_root(self, base, val):
        r = self.fresh(base); self.store[r] = val; return r
    def heap(self, t):
        """the objects of type t on the heap"""
        t = canon(t); r = 'heap.' + t.s
        self.w.heaptypes[r] = t
        if r not in self.store:
            s = ('Vec', sort_of(t)); x = var(r, s)
            self.store[r] = x
            self.old[('type', r)] = HeapSeq(t)
            self.assume(*elem_facts(x, t))
        return self.store[r]
    def read(self, lv):
        v = self.store.get(lv.root, None)
        if v is None and lv.root.startswith('heap.'): v = self.heap(lv.path[0][2])
        if v is None: raise Unsupported('read of unknown object %s' % lv.root)
        for k, x, t in lv.path:
            if k == 'f':
                if not isinstance(v, RecVal): raise Unsupported('field %s of %r' % (x, v))
                if x not in v.f: raise Unsupported('no field %s in %s' % (x, v.name))
                v = v.f[x]
            else:
                v = from_term(vget(v, x), t)
        if isinstance(v, Term): self.range_fact(v, lv.type)
        elif isinstance(v, Opaque): pass
        return v
    def range_fact(self, v, t):
        t = t.strip()
        if v.sort == 'Int' and t.k in ('int', 'enum') and v.op not in ('int',):
            if v.op == 'lin' or v.op == 'ite': return
            lo, hi = int_range(t)
            self.assume(le(lo, v), le(v, hi))
        elif isinstance(v.sort, tuple) and v.sort[0] == 'Vec' and v.op != 'mk' and t.k != 'array':
            self.assume(le(0, vlen(v)), le(vlen(v), LIM))
    def write(self, lv, val):
        if lv.root.startswith('heap.') and lv.root not in self.store: self.heap(lv.path[0][2])
        self.store[lv.root] = self._upd(self.store.get(lv.root), lv.path, val, lv.type)
    def _upd(self, v, path, val, t):
        if not path: return val
        k, x, et = path[0]
        if k == 'f':
            return v.set(x, self._upd(v.f[x], path[1:], val, t))
        if len(path) == 1: return vset(v, x, to_term(val, et))
        return vset(v, x, to_term(self._upd(from_term(vget(v, x), et), path[1:], val, t), et))

    def fresh_val(self, t, base, facts=True):
        t = t.strip()
        if is_stream(t): return RecVal('stream', {'buf': vempty('Int'), 'ok': TRUE})
        if t.k == 'rec' and seqelem(t) is None and not is_iter(t):
            return RecVal(t.s, {k: self.fresh_val(ct, base + '.' + k.lstrip('@').split('::')[-1], facts) for k, ct, _ in comps(t)})
        if t.k == 'ptr' and has_sort(t):
            x = self.freshvar(base, 'Int'); self.assume(le(0, x))
            return from_term(x, t)
        if is_iter(t) and t.s in ITER_HOME: return from_term(self.freshvar(base, sort_of(t)), t)
        if t.k == 'ptr' or is_iter(t) or t.isref: return Opaque('unknown pointer ' + t.s)
        if t.k == 'fn': return Opaque('function')
        x = self.freshvar(base, sort_of(t))
        if facts: self.assume(*type_facts(x, t))
        return x
    def zero_val(self, t):
        t = t.strip()
        if t.k == 'ptr': return Null
        if t.k == 'rec' and seqelem(t) is None and not is_iter(t):
            return RecVal(t.s, {k: self.zero_val(ct) for k, ct, _ in comps(t)})
        if t.k == 'array': return mkvec(num(t.d['n']), constarr(to_term(self.zero_val(t.to), t.to)))
        return default(sort_of(t))
    def temp(self, val, t, base='tmp'):
        return LV(self.new_root(base, val), (), t.strip())

    # ---- integer conversions
    def in_range(self, x, t):
        lo, hi = int_range(t)
        if x.op == 'int': return lo <= x.data <= hi
        return self.entails(conj(le(lo, x), le(x, hi)))
    def conv(self, x, t):
        """value of integer term x converted to C++ type t"""
        if t.k == 'bool':
            return ne(x, 0) if x.sort == 'Int' else x
        if x.sort == 'Bool': x = ite(x, 1, 0)
        lo, hi = int_range(t); n = hi - lo + 1
        if x.op == 'int':
            v = (x.data - lo) % n + lo
            return num(v)
        if x.op == 'ite' and x.args[1].op == 'int' and x.args[2].op == 'int':
            return ite(x.args[0], self.conv(x.args[1], t), self.conv(x.args[2], t))
        if self.in_range(x, t): return x
        if x.op == 'mod' and x.args[1].op == 'int' and x.args[1].data % n == 0:
            # the same value modulo n with the smallest coefficients
            small = lambda k: (k + n // 2) % n - n // 2
            c, m = lin_parts(x.args[0]); y = mk_lin(small(c), {a: small(k) for a, k in m.items()})
            if self.in_range(y, t): return y
        if lo == 0: return mod(x, n)
        return sub(mod(sub(x, lo), n), -lo)
    def asint(self, x): return ite(x, 1, 0) if x.sort == 'Bool' else x
    def asbool(self, x):
        if isinstance(x, Term): return ne(x, 0) if x.sort == 'Int' else x
        if x is Null: return FALSE
        if isinstance(x, (Ptr, Obj, FnVal)): return TRUE
        if isinstance(x, MaybePtr): return x.c
        if isinstance(x, (HP, FP)): return ne(x.id, 0)
        raise Unsupported('condition on %r' % (x,))
    def arith(self, op, a, b, t):
        a = self.asint(a); b = self.asint(b)
        t = t.strip()
        if op in ('+', '-', '*'):
            r = add(a, b) if op == '+' else sub(a, b) if op == '-' else mul(a, b)
            return self.bounded(r, t, op)
        if op in ('/', '%'):
            self.oblige(ne(b, 0), 'division by zero')
            nn = lambda x: x.op == 'int' and x.data >= 0 or self.entails(le(0, x))
            if nn(a) and nn(b): r = div(a, b) if op == '/' else mod(a, b)
            else:
                # C++ truncates towards zero
                absa = ite(ge(a, 0), a, sub(0, a)) if not nn(a) else a
                absb = b if nn(b) else ite(ge(b, 0), b, sub(0, b))
                q = div(absa, absb)
                if op == '/': r = ite(eq(ge(a, 0), ge(b, 0) if not nn(b) else TRUE), q, sub(0, q))
                else:
                    m = mod(absa, absb); r = ite(ge(a, 0), m, sub(0, m))
            return r if op == '%' else self.bounded(r, t, op)
        if op in ('&', '|', '^', '<<', '>>'): return self.bits(op, a, b, t)
        raise Unsupported('operator ' + op)
    def bounded(self, r, t, op):
        if t.sg:
            lo, hi = int_range(t)
            if r.op == 'int' and lo <= r.data <= hi: return r
            self.oblige(conj(le(lo, r), le(r, hi)), 'signed overflow in ' + op)
            return r
        return self.conv(r, t)
    def bits(self, op, a, b, t):
        if a.op == 'int' and b.op == 'int':
            x, y = a.data, b.data
            r = x & y if op == '&' else x | y if op == '|' else x ^ y if op == '^' else x << y if op == '<<' else x >> y
            return self.conv(num(r), t)
        if op == '&':
            if a.op == 'int': a, b = b, a
            if b.op == 'int':
                m = b.data
                if m >= 0:
                    # sum over the runs of set bits
                    r = num(0); k = 0
                    while m >> k:
                        if (m >> k) & 1:
                            l = k
                            while (m >> l) & 1: l += 1
                            r = add(r, scale(2**k, mod(div(a, num(2**k)), num(2**(l - k))))); k = l
                        else: k += 1
                    return r
                m2 = ~m        # a & ~m2 == a - (a & m2)
                return sub(a, self.bits('&', a, num(m2), t))
            if a is b: return a
        if op == '<<' and b.op == 'int': return self.bounded(scale(2**b.data, a), t, op)
        if op == '<<' and a.op == 'int' and a.data == 1: return self.bounded(app('pow2', b), t, op)
        if op == '>>' and b.op == 'int': return div(a, num(2**b.data))
        if op == '^':
            if b.op == 'int' and b.data == 1: return ite(eq(mod(a, 2), 0), add(a, 1), sub(a, 1))
            if a.op == 'ite' and b.op == 'ite': return ite(a.args[0], self.bits(op, a.args[1], b, t), self.bits(op, a.args[2], b, t))
            if a.op == 'ite': return ite(a.args[0], self.bits(op, a.args[1], b, t), self.bits(op, a.args[2], b, t))
            if b.op == 'ite': return ite(b.args[0], self.bits(op, a, b.args[1], t), self.bits(op, a, b.args[2], t))
            if a.op == 'int' and a.data == 0: return b
            if b.op == 'int' and b.data == 0: return a
            if self.entails(conj(le(0, a), le(a, 1))) and self.entails(conj(le(0, b), le(b, 1))): return ite(eq(a, b), 0, 1)
        if op == '|':
            if a.op == 'int' and a.data == 0: return b
            if b.op == 'int' and b.data == 0: return a
            if a.op == 'int': a, b = b, a
            if b.op == 'int' and b.data > 0: return add(sub(a, self.bits('&', a, b, t)), b)
        declare('bv' + {'&': 'and', '|': 'or', '^': 'xor', '<<': 'shl', '>>': 'shr'}[op], ('Int', 'Int'), 'Int')
        return self.conv(app('bv' + {'&': 'and', '|': 'or', '^': 'xor', '<<': 'shl', '>>': 'shr'}[op], a, b), t)

    # ---- expressions
    def ty(self, e): return self.tu.type(e[1])
    @property
    def tu(self): return self.frames[-1].tu
    def lv(self, e):
        """lvalue/xvalue expression -> LV"""
        self.line = e[3] or self.line
        k = e[0]
        f = getattr(self, 'lv_' + k, None)
        if f is None: raise Unsupported('lvalue ' + k)
        return f(e)
    def rv(self, e):
        self.line = e[3] or self.line
        if e[2] != 'r':
            return self.read(self.lv(e))
        k = e[0]
        f = getattr(self, 'rv_' + k, None)
        if f is None: raise Unsupported('expression ' + k + (' ' + str(e[4]) if k == 'unsup' else ''))
        return f(e)
    def anyv(self, e):
        """evaluate for side effects"""
        if e[2] == 'r': return self.rv(e)
        return self.lv(e)

    def lv_var(self, e):
        v = self.tu.var(e[4])
        return self.lookup(v)
    def lookup(self, v):
        fr = self.frames[-1]
        x = fr.env.get(v.id)
        if x is not None: return x
        if v.glob is not None: return self.global_lv(v)
        if v.d.get('slocal'):
            lv = LV(self.new_root('static.' + v.n, self.fresh_val(v.t, v.n)), (), v.t)
            fr.env[v.id] = lv
            return lv
        # captured by a lambda: search outer frames
        for f in reversed(self.frames[:-1]):
            if f.tu is fr.tu and v.id in f.env: return f.env[v.id]
        raise Unsupported('variable ' + v.n)
    def global_lv(self, v):
        r = 'global.' + v.glob
        if r not in self.store:
            g = self.w.prog.globals.get(v.glob, v)
            if v.glob in self.w.genv: self.store[r] = self.w.genv[v.glob](self, g)
            elif 'i' in g.d:
                saved = self.frames
                fr = Frame(self.frames[-1].fn, None); fr.tu = g.tu
                self.frames = self.frames + [fr]
                try: self.store[r] = self.init_val(g.t, g.d['i'])
                finally: self.frames = saved
            else: self.store[r] = self.fresh_val(v.t, v.glob.split('::')[-1])
        return LV(r, (), v.t)
    def lv_fn(self, e): return LV(self.new_root('fn', FnVal(self.tu.fn(e[4]))), (), self.ty(e))
    def lv_this(self, e): raise Unsupported('this as lvalue')
    def rv_this(self, e): return self.addr(self.frames[-1].this)
    def lv_field(self, e):
        name, arrow, base = e[4], e[5], e[6]
        if arrow: b = self.deref(self.rv(base), self.tu.type(base[1]).to)
        elif base[2] == 'r': b = self.temp(self.rv(base), self.ty(base))
        else: b = self.lv(base)
        return self.member(b, name, self.ty(e), self.tu.type(e[7]))
    def rv_field(self, e):
        return self.read(self.lv_field(e))
    def member(self, b, name, t, owner):
        lv = b.field(name, t)
        try: v = self.read(b)
        except Unsupported: v = None
        # reference members hold an Obj
        if isinstance(v, RecVal) and name in v.f and isinstance(v.f[name], Obj) and self.field_is_ref(owner, name):
            return v.f[name].lv
        return lv
    def field_is_ref(self, owner, name):
        try:
            for n, ft, _ in comps(owner):
                if n == name: return ft.isref
        except Unsupported: pass
        return False
    def lv_idx(self, e):
        b = self.rv(e[4]); i = self.rv(e[5])
        if not isinstance(b, (Ptr, MaybePtr)): 
            b, i = i, b
        b = self.nonnull(b)
        p = b.at(add(b.i, self.asint(i)))
        return self.deref(p, self.ty(e))
    def nonnull(self, p):
        if isinstance(p, MaybePtr):
            self.oblige(p.c, 'null pointer dereference'); return p.p
        if p is Null: self.oblige(FALSE, 'null pointer dereference'); raise PathEnd()
        return p
    def deref(self, p, t):
        if isinstance(p, MaybePtr): p = self.nonnull(p)
        if isinstance(p, Obj): return p.lv
        if isinstance(p, HP):
            self.oblige(ne(p.id, 0), 'null pointer dereference')
            self.heap(p.t)
            return heap_lv(p.t, p.id)
        if isinstance(p, Ptr):
            c = self.read(p.c); n = vlen(c)
            i = p.i if not p.rev else sub(p.i, 1)
            self.oblige(conj(le(0, i), le(i, n) if p.nul else lt(i, n)), 'access within bounds')
            if p.nul: self.assume(imp(eq(i, n), eq(vget(c, i), 0)))
            e = seqelem(p.c.type)
            return p.c.index(i, e if e is not None else t.strip())
        if p is Null: self.oblige(FALSE, 'null pointer dereference'); raise PathEnd()
        raise Unsupported('dereference of %r' % (p,))
    def lv_un(self, e):
        op = e[4]
        if op == '*': 
            v = self.rv(e[6])
            if isinstance(v, FnVal): return LV(self.new_root('fn', v), (), self.ty(e))
            return self.deref(v, self.ty(e))
        if op in ('++', '--'):
            lv = self.lv(e[6]); self.incdec(lv, op); return lv
        raise Unsupported('lvalue ' + op)
    def incdec(self, lv, op):
        t = lv.type.strip(); v = self.read(lv); d = 1 if op == '++' else -1
        if isinstance(v, Ptr): n = self.ptradd(v, d)
        elif t.k == 'bool': n = TRUE
        elif isinstance(v, MaybePtr): n = self.ptradd(self.nonnull(v), d)
        else:
            if not isinstance(v, Term): raise Unsupported('++ on %r' % (v,))
            r = add(v, d)
            n = self.bounded(r, t, op) if (t.sg and t.w >= 32) else self.conv(r, t)
        self.write(lv, n)
        return v
    def ptradd(self, p, d):
        if p.rev: return p.at(sub(p.i, d))
        r = p.at(add(p.i, d))
        return r
    def rv_un(self, e):
        op, post, s = e[4], e[5], e[6]
        if op in ('++', '--'):
            lv = self.lv(s); v = self.incdec(lv, op)
            return v if post else self.read(lv)
        if op == '&':
            if s[0] == 'fn': return FnVal(self.tu.fn(s[4]))
            lv = self.lv(s)
            return self.addr(lv)
        v = self.rv(s); t = self.ty(e)
        if op == '!': return mk_not(self.asbool(v))
        if op == '-':
            if v.sort != 'Int': raise Unsupported('float negation')
            return self.bounded(sub(0, self.asint(v)), t, 'negation')
        if op == '+': return v
        if op == '~': 
            v = self.asint(v)
            return self.conv(sub(-1, v), t)
        raise Unsupported('unary ' + op)
    def addr_obj(self, lv): return self.addr(lv) if lv.root.startswith('heap.') else Obj(lv)
    def addr(self, lv):
        if lv.root.startswith('heap.') and len(lv.path) == 1: return HP(lv.path[0][2], lv.path[0][1])
        if lv.path and lv.path[-1][0] == 'i': return Ptr(LV(lv.root, lv.path[:-1], self.container_type(lv)), lv.path[-1][1])
        return Obj(lv)
    def container_type(self, lv):
        class CT: pass
        t = CT(); t.k = 'array'; t.to = lv.path[-1][2]; t.s = 'seq'; t.strip = lambda: t; t.d = {'n': 0}; t.isref = False; t.tmpl = None
        return t
    def rv_int(self, e):
        n = int(e[4])
        if self.ty(e).k == 'bool': return TRUE if n else FALSE
        return num(n)
    def rv_float(self, e):
        return var('fl.' + e[4], ('U', 'float'))
    def lv_str(self, e):
        codes = e[4]
        r = 'lit.' + ','.join(map(str, codes))
        if r not in self.store:
            self.store[r] = mkvec(num(len(codes)), self.litarr(codes))
        return LV(r, (), self.ty(e))
    def litarr(self, codes):
        a = constarr(0)
        for i, c in enumerate(codes): a = store(a, i, c)
        return a
    def rv_nullptr(self, e): return Null
    def rv_zero(self, e): return self.zero_val(self.ty(e))
    def rv_bin(self, e):
        op = e[4]
        if op == ',':
            self.anyv(e[5]); return self.rv(e[6])
        if op == '&&':
            if not self.decide(self.asbool(self.rv(e[5]))): return FALSE
            return self.asbool(self.rv(e[6]))
        if op == '||':
            if self.decide(self.asbool(self.rv(e[5]))): return TRUE
            return self.asbool(self.rv(e[6]))
        a = self.rv(e[5]); b = self.rv(e[6])
        return self.binop(op, a, b, self.ty(e), self.ty(e[5]))
    def binop(self, op, a, b, t, ta=None):
        if isinstance(a, Term) and isinstance(b, Term):
            if ('U', 'float') in (a.sort, b.sort): return self.floatop(op, a, b, t)
            if op in ('==', '!='):
                if a.sort != b.sort: a = self.asint(a); b = self.asint(b)
                r = eq(a, b); return r if op == '==' else mk_not(r)
            if op in ('<', '>', '<=', '>='):
                a = self.asint(a); b = self.asint(b)
                return {'<': lt, '>': gt, '<=': le, '>=': ge}[op](a, b)
            return self.arith(op, a, b, t)
        return self.ptrop(op, a, b)
    def floatop(self, op, a, b, t):
        if a.sort == 'Int': a = self.tofloat(a)
        if b.sort == 'Int': b = self.tofloat(b)
        F = ('U', 'float')
        name = 'f' + {'+': 'add', '-': 'sub', '*': 'mul', '/': 'div', '<': 'lt', '>': 'gt', '<=': 'le', '>=': 'ge', '==': 'eq', '!=': 'ne'}[op]
        declare(name, (F, F), 'Bool' if op in ('<', '>', '<=', '>=', '==', '!=') else F)
        return app(name, a, b)
    def tofloat(self, a):
        declare('i2f', ('Int',), ('U', 'float')); return app('i2f', self.asint(a))
    def ptrop(self, op, a, b):
        if isinstance(a, Ptr) and isinstance(b, Term): 
            d = self.asint(b)
            return self.ptradd(a, d if op == '+' else sub(0, d))
        if isinstance(b, Ptr) and isinstance(a, Term) and op == '+': return self.ptradd(b, self.asint(a))
        if isinstance(a, MaybePtr) and isinstance(b, (Term, Ptr)): return self.ptrop(op, self.nonnull(a), b) if op not in ('==', '!=') else self.maybe_eq(op, a, b)
        if isinstance(b, MaybePtr) and op in ('==', '!='): return self.maybe_eq(op, b, a)
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if not a.c.same(b.c) and not self.samelv(a.c, b.c):
                if op in ('==', '!='):
                    if a.c.root == b.c.root and a.c.root.startswith('heap.') and len(a.c.path) == len(b.c.path) and all(x[0] == y[0] and (x[0] == 'i' or x[1] == y[1]) for x, y in zip(a.c.path, b.c.path)) and not a.rev:
                        r = conj(eq(a.i, b.i), *[eq(x[1], y[1]) for x, y in zip(a.c.path, b.c.path) if x[0] == 'i'])
                        return r if op == '==' else mk_not(r)
                    raise Unsupported('comparison of pointers into different objects')
                raise Unsupported('comparison of pointers into different objects')
            if op == '-': return sub(a.i, b.i) if not a.rev else sub(b.i, a.i)
            x, y = (a.i, b.i) if not a.rev else (b.i, a.i)
            return {'==': eq, '!=': ne, '<': lt, '>': gt, '<=': le, '>=': ge}[op](x, y)
        if isinstance(a, (HP, FP)) or isinstance(b, (HP, FP)):
            x, y = ptrid(a), ptrid(b)
            if op in ('==', '!='): return eq(x, y) if op == '==' else ne(x, y)
            if op in ('<', '>', '<=', '>='): return {'<': lt, '>': gt, '<=': le, '>=': ge}[op](x, y)
        if op in ('==', '!='):
            r = None
            if a is Null and b is Null: r = TRUE
            elif a is Null or b is Null:
                x = b if a is Null else a
                if isinstance(x, (Ptr, Obj, FnVal)): r = FALSE
                elif isinstance(x, MaybePtr): r = mk_not(x.c)
            elif isinstance(a, Obj) and isinstance(b, Obj):
                if a.lv.same(b.lv): r = TRUE
                elif a.lv.root != b.lv.root: r = FALSE
            elif isinstance(a, FnVal) and isinstance(b, FnVal): r = T(a.fn.key == b.fn.key)
            if r is not None: return r if op == '==' else mk_not(r)
        raise Unsupported('pointer operation %s on %r, %r' % (op, a, b))
    def samelv(self, a, b):
        """two descriptions of one object"""
        if a.root != b.root or len(a.path) != len(b.path): return False
        return all(x[0] == y[0] and (self.entails(eq(x[1], y[1])) if x[0] == 'i' else x[1] == y[1]) for x, y in zip(a.path, b.path))
    def maybe_eq(self, op, a, b):
        if b is Null: r = mk_not(a.c)
        elif isinstance(b, Ptr) and b.c.same(a.p.c): r = conj(a.c, eq(a.p.i, b.i))
        else: raise Unsupported('comparison of nullable pointers')
        return r if op == '==' else mk_not(r)
    def lv_bin(self, e):
        op = e[4]
        if op == ',':
            self.anyv(e[5]); return self.lv(e[6])
        if op == '=':
            v = self.rv(e[6]); lv = self.lv(e[5])
            self.write(lv, v); return lv
        raise Unsupported('lvalue ' + op)
    def lv_casg(self, e):
        op, l, r, lt_, rt = e[4], e[5], e[6], self.tu.type(e[7]), self.tu.type(e[8])
        b = self.rv(r)
        lv = self.lv(l); a = self.read(lv); t = lv.type.strip()
        if isinstance(a, (Ptr, MaybePtr)): self.write(lv, self.ptrop(op, a, b)); return lv
        if isinstance(a, Term) and isinstance(b, Term) and ('U', 'float') in (a.sort, b.sort):
            x = self.floatop(op, a, b, rt)
            if t.isint: raise Unsupported('float to int')
            self.write(lv, x); return lv
        if t.k == 'bool' and op in ('|', '&', '^'):
            A = self.asbool(a); B = self.asint(b)
            x = disj(A, ne(B, 0)) if op == '|' else conj(A, ne(mod(B, 2), 0)) if op == '&' else ne(A, ne(B, 0))
            self.write(lv, x); return lv
        if lt_.isint: a = self.conv(a, lt_)
        x = self.arith(op, a, b, rt)
        self.write(lv, self.conv(x, t)); return lv
    def rv_cond(self, e):
        c = self.asbool(self.rv(e[4]))
        if (self.suppress or self.simple(e[5]) and self.simple(e[6])) and self.ty(e).k in ('int', 'bool', 'enum'):
            a = self.rv(e[5]); b = self.rv(e[6])
            return ite(c, a, b)
        return self.rv(e[5]) if self.decide(c) else self.rv(e[6])
    def simple(self, e):
        if e[0] in ('int',): return True
        if e[0] == 'cast' and e[4] in ('LValueToRValue',) : return e[5][0] == 'var'
        if e[0] == 'cast' and e[4] in ('NoOp', 'IntegralCast'): return self.simple(e[5])
        return False
    def lv_cond(self, e):
        return self.lv(e[5]) if self.decide(self.asbool(self.rv(e[4]))) else self.lv(e[6])
    def rv_cast(self, e):
        ck, s = e[4], e[5]; t = self.ty(e)
        if ck == 'LValueToRValue': return self.read(self.lv(s))
        if ck in ('NoOp', 'ConstructorConversion', 'UserDefinedConversion'): return self.rv(s)
        if ck == 'IntegralCast': return self.conv(self.asint(self.rv(s)) if t.k != 'bool' else self.rv(s), t)
        if ck == 'BooleanToSignedIntegral': return ite(self.asbool(self.rv(s)), -1, 0)
        if ck in ('IntegralToBoolean', 'PointerToBoolean'): return self.asbool(self.rv(s))
        if ck == 'ArrayToPointerDecay':
            lv = self.lv(s)
            return Ptr(lv, num(0), nul=(s[0] == 'str'))
        if ck == 'NullToPointer': 
            return Null
        if ck == 'FunctionToPointerDecay':
            if s[0] == 'fn': return FnVal(self.tu.fn(s[4]))
            return self.read(self.lv(s))
        if ck in ('BitCast', 'CPointerToObjPointerCast'): 
            v = self.rv(s)
            if isinstance(v, (Ptr, Obj)) : return v
            if v is Null: return v
            raise Unsupported('BitCast')
        if ck in ('DerivedToBase', 'UncheckedDerivedToBase'):
            v = self.rv(s)
            if t.k == 'ptr':
                if v is Null: return v
                if isinstance(v, HP) and canon(v.t).s == canon(t.to).s: return HP(t.to, v.id)
                if isinstance(v, Obj): return Obj(self.tobase(v.lv, e[6]))
            elif isinstance(v, RecVal):
                return self.read(self.tobase(self.temp(v, self.ty(s)), e[6]))
            raise Unsupported('DerivedToBase of %r' % (v,))
        if ck == 'ToVoid': self.anyv(s); return None
        if ck == 'IntegralToFloating': return self.tofloat(self.rv(s))
        if ck == 'FloatingCast': return self.rv(s)
        if ck == 'FloatingToIntegral':
            v = self.rv(s)
            declare('f2i', (('U', 'float'),), 'Int')
            x = app('f2i', v)
            self.oblige(conj(le(int_range(t)[0], x), le(x, int_range(t)[1])), 'float to integer conversion in range')
            return x
        if ck == 'FloatingToBoolean':
            declare('fnz', (('U', 'float'),), 'Bool'); return app('fnz', self.rv(s))
        if ck == 'BaseToDerived':
            v = self.rv(s)
            return v
        raise Unsupported('cast ' + ck)
    def lv_cast(self, e):
        ck, s = e[4], e[5]
        if ck in ('NoOp', 'LValueBitCast'):
            if s[2] == 'r': return self.temp(self.rv(s), self.ty(s))
            l = self.lv(s); return l
        if ck in ('DerivedToBase', 'UncheckedDerivedToBase'): return self.tobase(self.lv(s), e[6])
        if ck in ('ConstructorConversion', 'UserDefinedConversion'): return self.temp(self.rv(s), self.ty(e)) if s[2] == 'r' else self.lv(s)
        if ck == 'BaseToDerived':
            l = self.lv(s)
            if l.path and l.path[-1][1].startswith('@'): return LV(l.root, l.path[:-1], self.ty(e))
            return LV(l.root, l.path, self.ty(e))
        raise Unsupported('lvalue cast ' + ck)
    def tobase(self, lv, chain):
        for ti in chain:
            bt = self.tu.type(ti)
            if lv.type.strip().s == bt.s: continue
            if is_stream(bt) or is_stream(lv.type.strip()): lv = LV(lv.root, lv.path, bt); continue
            if lv.type.strip().rec is None or not lv.type.strip().rec.repo: lv = LV(lv.root, lv.path, bt); continue
            if is_empty(bt): lv = LV(lv.root, lv.path, bt); continue
            lv = lv.field('@' + bt.s, bt)
        return lv
    def lv_mat(self, e):
        s = e[4]
        if s[2] != 'r': return self.lv(s)
        return self.dtemp(self.init_val(self.ty(e), s), self.ty(e))
    def dtemp(self, val, t):
        """a temporary that is destroyed at the end of the full expression"""
        lv = self.temp(val, t)
        if self.needs_dtor(t.strip()): self.frames[-1].temps.append((lv, t.strip()))
        return lv
    def flush_temps(self, fr):
        while fr.temps:
            lv, t = fr.temps.pop(); self.destroy_obj(lv, t)
    def needs_dtor(self, t, seen=()):
        r = _needs.get(t.s)
        if r is None:
            if t.s in seen or t.k != 'rec' or seqelem(t) is not None or is_iter(t) or is_stream(t) or (t.tmpl != 'std::pair' and (t.rec is None or not t.rec.repo)): return False
            r = self.dtor_of(t) is not None or any(self.needs_dtor(ct, seen + (t.s,)) for k, ct, _ in comps(t))
            if not seen: _needs[t.s] = r
        return r
    def destroy_obj(self, lv, t):
        """run the destructor of the object and of its members"""
        t = t.strip()
        if not self.needs_dtor(t): return
        d = self.dtor_of(t)
        if d is not None: self.invoke(d, lv, [], None)
        for k, ct, _ in reversed(comps(t)):
            if self.needs_dtor(ct): self.destroy_obj(lv.field(k, ct), ct)
    def rv_mat(self, e): return self.rv(e[4])
    def lv_ctor(self, e): return self.dtemp(self.rv_ctor(e), self.ty(e))
    def rv_stdil(self, e): return self.rv(e[4]) if e[4][2] == 'r' else self.read(self.lv(e[4]))
    def rv_ilist(self, e):
        t = self.ty(e); items = e[4]
        if t.k == 'array':
            vals = [to_term(self.init_val(t.to, x), t.to) for x in items]
            a = constarr(to_term(self.zero_val(t.to), t.to))
            for i, v in enumerate(vals): a = store(a, i, v)
            return mkvec(num(t.d['n']), a)
        if t.k == 'rec' and seqelem(t) is None:
            cs = comps(t); f = {}
            for (k, ct, init), x in zip(cs, items): f[k] = self.init_val(ct, x)
            for k, ct, init in cs[len(items):]: f[k] = self.zero_val(ct)
            return RecVal(t.s, f)
        if len(items) == 0: return self.zero_val(t)
        if len(items) == 1: return self.rv(items[0])
        raise Unsupported('initialiser list for ' + t.s)
    def lv_throw(self, e): return self.rv_throw(e)
    def rv_throw(self, e):
        if e[4] is None:
            raise CxxThrow(*self.current_exc)
        v = self.rv(e[4]); raise CxxThrow(self.ty(e[4]).s, v)
    def rv_lambda(self, e):
        t = self.ty(e); r = t.rec
        f = {}
        caps = e[4]
        # capture initialisers in field order; fields of closure types are unnamed
        return RecVal(t.s, {'#%d' % i: (Obj(self.lv(c)) if c[2] != 'r' else self.rv(c)) for i, c in enumerate(caps)})
    def rv_new(self, e):
        t = self.tu.type(e[4])
        if e[6] is not None: raise Unsupported('new[]')
        c = self.old.get('contract')
        if c is not None and 'std::bad_alloc' in c.maythrow and self.decide(self.freshvar('nomem', 'Bool')):
            raise CxxThrow('std::bad_alloc', RecVal('std::bad_alloc', {}))
        v = self.init_val(t, e[5]) if e[5] is not None else self.init_field(t, None)
        self.heap(t); lv = self.live(t)
        x = self.freshvar('new', 'Int')
        self.assume(lt(0, x), eq(self.read(lv.index(x, INTT)), 0))
        self.write(lv.index(x, INTT), num(1))
        self.write(heap_lv(t, x), v)
        return HP(t, x)
    def live(self, t):
        """1 for each object of type t that has been allocated and not yet freed"""
        t = canon(t); r = 'live.' + t.s
        self.w.heaptypes[r] = t
        if r not in self.store:
            self.store[r] = var(r, ('Vec', 'Int')); self.old[('type', r)] = HeapSeq(INTT)
            x = self.store[r]
            self.assume(forall(1, lambda k: conj(le(0, vget(x, k)), le(vget(x, k), 1)), pats=lambda k: [[vget(x, k)]]), eq(vget(x, 0), 0))
        return LV(r, (), HeapSeq(INTT))
    def rv_delete(self, e):
        v = self.rv(e[4])
        if v is Null: return None
        if not isinstance(v, HP): raise Unsupported('delete of %r' % (v,))
        if not self.decide(ne(v.id, 0)): return None
        self.free(v); return None
    def free(self, v):
        lv = self.live(v.t)
        self.oblige(eq(self.read(lv.index(v.id, INTT)), 1), 'only a live object is freed')
        self.destroy_obj(heap_lv(v.t, v.id), v.t)
        self.write(lv.index(v.id, INTT), num(0))
    def rv_dyncast(self, e): raise Unsupported('dynamic_cast')

    # ---- initialisation
    def init_val(self, t, e):
        """value of an object of type t initialised by expression e"""
        t = t.strip() if not t.isref else t
        if e is None: return self.default_val(t)
        if e[2] != 'r': return self.read(self.lv(e))
        v = self.rv(e)
        return v
    def default_val(self, t):
        """default-initialised (no initialiser): scalars are indeterminate"""
        if t.k == 'array':
            return self.fresh_val(t, 'uninit')
        if t.k in ('int', 'bool', 'enum', 'float'): return self.fresh_val(t, 'uninit')
        if t.k == 'ptr': return self.fresh_val(t, 'uninit') if has_sort(t) else Opaque('uninitialised pointer')
        return self.zero_val(t)

    # ---- calls
    def eval_args(self, fn, args):
        ps = fn.ps; out = []
        for i, a in enumerate(args):
            if i < len(ps) and ps[i].isref:
                out.append(self.lv(a) if a[2] != 'r' else self.dtemp(self.rv(a), self.ty(a)))
            else: out.append(self.rv(a))
        return out
    def lv_call(self, e):
        r = self.call(e); t = self.ty(e)
        if isinstance(r, LV): return r
        raise Unsupported('call does not yield an lvalue')
    def rv_call(self, e):
        r = self.call(e)
        if isinstance(r, LV): r = self.read(r)
        return r
    def call(self, e):
        fn = self.tu.fn(e[4])
        args = self.eval_args(fn, e[5])
        return self.invoke(fn, None, args, e)
    def rv_icall(self, e): return self.icall(e)
    def lv_icall(self, e): return self.icall(e)
    def icall(self, e):
        f = self.rv(e[4]) if e[4][2] == 'r' else self.read(self.lv(e[4]))
        if isinstance(f, FnVal):
            args = self.eval_args(f.fn, e[5])
            return self.invoke(f.fn, None, args, e)
        if isinstance(f, FP):
            self.oblige(ne(f.id, 0), 'call through a null function pointer')
            h = FPCALL.get(f.t.s)
            if h is not None: return h(self, f, self.tu, e[5])
        raise Unsupported('indirect call')
    lv_mcall = lambda self, e: self.as_lv(self.mcall(e), e)
    def as_lv(self, r, e):
        if isinstance(r, LV): return r
        raise Unsupported('call does not yield an lvalue: %s' % self.tu.fn(e[4]).key)
    def rv_mcall(self, e):
        r = self.mcall(e)
        if isinstance(r, LV): r = self.read(r)
        return r
    def mcall(self, e):
        fn = self.tu.fn(e[4]); obj, arrow, argx = e[5], e[6], e[7]
        if fn.get('static'): this = None; self.anyv(obj)
        elif fn.get('asg') and fn.get('implicit') or fn.get('asg') and fn.get('defaulted'):
            # memberwise assignment: right operand first
            src = self.rv(argx[0]); l = self.lv(obj); self.write(l, src); return l
        elif arrow: this = self.deref(self.rv(obj), self.tu.type(obj[1]).to)
        elif fn.gq.startswith('std::_Bit_reference::') and obj[0] in ('mcall', 'mat'):
            o = obj
            while o[0] == 'mat': o = o[4]
            this = self.mcall(o) if o[0] == 'mcall' else None
            if not isinstance(this, LV): raise Unsupported('bit reference')
        elif obj[2] == 'r': this = self.dtemp(self.rv(obj), self.ty(obj))
        else: this = self.lv(obj)
        args = self.eval_args(fn, argx)
        if fn.get('virtual') and not e[8]: fn = self.devirt(fn, this)
        return self.invoke(fn, this, args, e)
    def devirt(self, fn, this):
        return fn
    def rv_ctor(self, e):
        fn = self.tu.fn(e[4]); t = self.ty(e).strip()
        args = e[5]
        if t.k == 'array': 
            v = self.construct(fn, t.to, [])
            return mkvec(num(t.d['n']), constarr(to_term(v, t.to)))
        return self.construct(fn, t, args, e)
    def construct(self, fn, t, argx, e=None, args=None):
        b = self.w.prog.body(fn)
        if fn.get('ctor') in ('copy', 'move') and b is None and not is_stream(t):
            return self.rv(argx[0]) if args is None else self.read(args[0])
        if args is None: args = self.eval_args(fn, argx)
        if b is None or not fn.repo:
            r = stl.construct(self, fn, t, args)
            if r is not None: return r
            if fn.get('ctor') == 'default' and fn.repo: return self.default_construct(t)
            raise Unsupported('constructor ' + fn.key)
        this = LV(self.new_root('obj', None), (), t)
        self.invoke(fn, this, args, e, ctor=True)
        v = self.store[this.root]
        return v
    def default_construct(self, t):
        f = {}
        for k, ct, init in comps(t):
            f[k] = self.init_field(ct, init)
        return RecVal(t.s, f)
    def init_field(self, ct, init):
        if is_stream(ct): return RecVal('stream', {'buf': vempty('Int'), 'ok': TRUE})
        if init is not None: return self.init_val(ct, init)
        if ct.k == 'rec' and seqelem(ct) is None and not is_iter(ct):
            dc = [m for m in (ct.rec.methods if ct.rec is not None else []) if m.get('ctor') == 'default']
            if dc: return self.construct(dc[0], ct, [])
            return self.default_construct(ct)
        return self.default_val(ct)
    def invoke(self, fn, this, args, e, ctor=False):
        c = self.w.contracts.get(fn.key)
        if c is not None and not (self.depth == 0):
            self.w.called.add(c.key)
            from .contract import apply_contract
            return apply_contract(self, c, fn, this, args, ctor)
        m = stl.lookup(fn)
        if m is not None and self.w.prog.body(fn) is None:
            self.w.models.add(fn.gq)
            return m(self, fn, this, args)
        b = self.w.prog.body(fn)
        if b is None:
            raise Unsupported('no body, contract or model for ' + fn.key)
        return self.run_body(b, this, args, ctor)
    def run_body(self, b, this, args, ctor=False):
        if self.depth > MAXDEPTH or sum(1 for f in self.frames if f.fn.key == b.key) > 2: raise Unsupported('recursion without a contract: ' + b.key)
        if self.depth > 0: self.w.inlined.add(b.key)
        fr = Frame(b.fn, this); fr.tu = b.tu
        for p, a in zip(b.params, args):
            if p.t.isref: fr.env[p.id] = a
            else:
                fr.env[p.id] = LV(self.new_root(p.n or 'p', a), (), p.t)
        self.frames.append(fr); self.depth += 1
        ostack = self.stack; self.stack = self.stack + ((b.key, self.line),) if len(self.frames) > 1 else ((b.key, 0),)
        oline = self.line
        try:
            if ctor: self.ctor_inits(b, this)
            self.block_scope(lambda: self.stmt(b.body))
            r = None
        except ReturnEx as x: r = x.val
        finally:
            self.frames.pop(); self.depth -= 1; self.stack = ostack
        self.line = oline
        return r
    def ctor_inits(self, b, this):
        t = b.fn.cls.strip(); inits = {}
        for kind, key, ti, ex in b.inits or []:
            if kind == 'm': inits[key] = ex
            elif kind == 'b': inits['@' + b.tu.type(ti).s] = ex
            elif kind == 'd':
                self.write(this, self.init_val(t, ex)); return
            else: raise Unsupported('initialiser')
        f = {}
        rv = RecVal(t.s, f)
        onheap = this.root.startswith('heap.')
        if not onheap: self.write(this, rv)
        for k, ct, dinit in comps(t):
            if k in inits:
                ex = inits[k]
                v = Obj(self.lv(ex)) if ct.isref else self.init_val(ct, ex)
            elif ct.isref: raise Unsupported('uninitialised reference')
            else: v = self.init_field(ct, dinit)
            if onheap: self.write(this.field(k, ct) if len(comps(t)) > 1 else this, v)
            else: self.write(this, self.store_rec(this).set(k, v))
    def store_rec(self, this):
        v = self.store[this.root]
        for k, x, t in this.path: v = v.f[x] if k == 'f' else from_term(vget(v, x), t)
        return v

    # ---- statements
    def stmt(self, s):
        if s is None: return
        self.line = s[1] or self.line
        if len(self.frames) == 1: self.w.lines.add(s[1])
        if self.frames[-1].temps: self.flush_temps(self.frames[-1])
        f = getattr(self, 'st_' + s[0], None)
        if f is None: raise Unsupported('statement ' + s[0])
        return f(s)
    def block_scope(self, f):
        fr = self.frames[-1]; n = len(fr.objs)
        try: f()
        except (PathEnd, Restart, Unsupported): raise
        except BaseException:
            self.flush_temps(fr); self.destroy(fr, n); raise
        else: self.flush_temps(fr); self.destroy(fr, n)
    def destroy(self, fr, n):
        while len(fr.objs) > n:
            lv, t = fr.objs.pop()
            self.destroy_obj(lv, t)
    def dtor_of(self, t):
        if t.k == 'rec' and t.rec is not None and t.rec.repo:
            for m in t.rec.methods:
                if m.get('dtor') and self.w.prog.body(m) is not None: return m
        return None
    def st_block(self, s):
        self.block_scope(lambda: self.seq(s[2]))
    def seq(self, ss):
        i = 0
        while i < len(ss):
            try:
                self.stmt(ss[i])
            except GotoEx as g:
                j = [k for k, x in enumerate(ss) if x and x[0] == 'label' and x[2] == g.l]
                if not j: raise
                if j[0] <= i: raise Unsupported('backward goto')
                i = j[0]; continue
            i += 1
    def st_label(self, s): self.stmt(s[3])
    def st_goto(self, s): raise GotoEx(s[2])
    def st_null(self, s): pass
    def st_expr(self, s):
        v = self.anyv(s[2])
        if s[2][2] == 'r' and isinstance(v, RecVal) and self.needs_dtor(self.ty(s[2])): self.dtemp(v, self.ty(s[2]))
        self.flush_temps(self.frames[-1])
    def st_decl(self, s):
        for vid, init in s[2]: self.declvar(vid, init)
    def declvar(self, vid, init):
        v = self.tu.var(vid); t = v.t; fr = self.frames[-1]
        if v.d.get('slocal'):
            self.lookup(v); return
        if t.isref:
            n = len(fr.temps)
            fr.env[vid] = self.lv(init) if init[2] != 'r' else self.temp(self.rv(init), t.to)
            # a temporary bound to the reference lives as long as it does
            for lv, tt in fr.temps[n:]:
                if lv.root == fr.env[vid].root: fr.objs.append((lv, tt)); fr.temps.remove((lv, tt))
            self.flush_temps(fr)
            return
        val = self.init_val(t, init)
        lv = LV(self.new_root(v.n, val), (), t); fr.env[vid] = lv
        if self.needs_dtor(t): fr.objs.append((lv, t))
        self.flush_temps(fr)
    def st_if(self, s):
        def go():
            if s[2]: self.stmt(s[2])
            if s[3]: self.declvar(*s[3])
            if self.decide(self.asbool(self.rv(s[4]))): self.stmt(s[5])
            elif s[6]: self.stmt(s[6])
        self.block_scope(go)
    def st_return(self, s):
        e = s[2]
        if e is None: raise ReturnEx(None)
        if self.frames[-1].fn.ret.isref: raise ReturnEx(self.lv(e))
        raise ReturnEx(self.init_val(self.frames[-1].fn.ret, e))
    def st_break(self, s): raise BreakEx()
    def st_continue(self, s): raise ContinueEx()
    def st_try(self, s):
        depth = len(self.frames)
        try: self.stmt(s[2])
        except CxxThrow as x:
            for vid, ti, h in s[3]:
                if vid is None or self.catches(self.tu.type(ti), x.tname):
                    if vid is not None:
                        v = self.tu.var(vid)
                        self.frames[-1].env[vid] = LV(self.new_root('exc', x.val if x.val is not None else RecVal(x.tname, {})), (), v.t.strip())
                    oc = getattr(self, 'current_exc', None); self.current_exc = (x.tname, x.val)
                    try: self.stmt(h)
                    finally: self.current_exc = oc
                    return
            raise
    def catches(self, t, name):
        return exc_is(self.w.prog, name, t.strip().s)
    def st_switch(self, s):
        def go():
            if s[2]: self.stmt(s[2])
            if s[3]: self.declvar(*s[3])
            v = self.asint(self.rv(s[4]))
            items = self.flatten_switch(s[5])
            labels = [(i, it[1]) for i, it in enumerate(items) if it[0] == 'case']
            dflt = [i for i, it in enumerate(items) if it[0] == 'default']
            start = None
            for i, c in labels:
                if self.decide(eq(v, int(c[4]))): start = i; break
            if start is None: start = dflt[0] if dflt else None
            if start is None: return
            try: self.seq([it[1] for it in items[start:] if it[0] == 'stmt'])
            except BreakEx: pass
        self.block_scope(go)
    def flatten_switch(self, body):
        out = []
        def add_(s):
            if s is None: return
            if s[0] == 'case': out.append(('case', s[2])); add_(s[3])
            elif s[0] == 'default': out.append(('default',)); add_(s[2])
            else: out.append(('stmt', s))
        for s in (body[2] if body[0] == 'block' else [body]): add_(s)
        return out

    # ---- loops
    def st_while(self, s): self.block_scope(lambda: self.loop(s, s[2], s[3], None, s[4]))
    def st_do(self, s): self.loop(s, None, s[2], None, s[3], post=True)
    def st_for(self, s):
        def go():
            if s[2]: self.stmt(s[2])
            self.loop(s, s[3], s[4], s[5], s[6])
        self.block_scope(go)
    def st_forrange(self, s):
        def go():
            if s[2]: self.stmt(s[2])
            self.stmt(s[3]); self.stmt(s[4]); self.stmt(s[5])
            self.loop(s, None, s[6], s[7], s[9], pre=s[8])
        self.block_scope(go)
    def loopid(self, s):
        fr = self.frames[-1]
        if not hasattr(fr, 'lids'): fr.lids = loop_ids(self.w.prog.body(fr.fn) or fr.fn)
        return self.stack[:-1] + ((self.stack[-1][0], ('loop', fr.lids.get(id(s), 0))),)
    def loop(self, s, condvar, cond, inc, body, post=False, pre=None):
        from .loops import LoopView
        w = self.w; key = self.loopid(s)
        maxun = w.unroll.get(self.stack[-1][0])
        if maxun:
            return self.unrolled(maxun, condvar, cond, inc, body, post, pre)
        info = w.loops.setdefault(key, LoopInfo())
        L = LoopView(self, s, cond, key, body)
        cands = L.candidates()
        if w.keep is not None and key_str(key) in w.keep:
            kp = w.keep[key_str(key)]; cands = [c for c in cands if c[0] in kp]
        info.labels |= {c[0] for c in cands}
        live = [c for c in cands if c[0] not in info.dropped]
        for lab, t in live:
            self.oblige(t, 'loop invariant holds on entry: ' + lab, 'inv', cand=(key, lab))
        # forget what the body may change
        for lk, (lv, what) in sorted(info.mod.items(), key=lambda p: str(p[0])):
            self.havoc(lv, what)
        L.moment = 'head'
        want = {c[0] for c in live}
        for lab, t in L.candidates(only=want):
            self.w.candterms.setdefault(t, set()).add((key, lab))
            self.assume(t)
        vhead = L.variants()
        if w.keep is not None and key_str(key) in w.keep: vhead = [x for x in vhead if x[0] in w.keep[key_str(key)]]
        info.variants |= {x[0] for x in vhead}
        vhead = [x for x in vhead if x[0] not in info.dropped]
        head = dict(self.store)
        roots = set(self.store)
        if not post:
            if condvar: self.declvar(*condvar)
            go = self.decide(self.asbool(self.rv(cond))) if cond is not None else True
            if not go: return
        try:
            def b():
                if pre: self.stmt(pre)
                self.stmt(body)
            try: self.block_scope(b)
            except ContinueEx: pass
            if post:
                if not self.decide(self.asbool(self.rv(cond))): return
            if inc: self.anyv(inc)
        except BreakEx:
            return
        # back edge
        self.reach('iteration of ' + key_str(key).rsplit('> ')[-1])
        self.diff(head, roots, info)
        L.moment = 'back'
        got = dict(L.candidates(only=want))
        for lab in sorted(want):
            self.oblige(got.get(lab, FALSE), 'loop invariant is preserved: ' + lab, 'inv', cand=(key, lab))
        vgot = dict(L.variants()) if vhead else {}
        for lab, m in vhead:
            m2 = vgot.get(lab)
            if m2 is None: self.oblige(FALSE, 'loop variant ' + lab, 'term', cand=(key, lab)); continue
            self.oblige(conj(le(0, m), lt(m2, m)), 'loop variant decreases: ' + lab, 'term', cand=(key, lab))
        raise PathEnd()
    def unrolled(self, n, condvar, cond, inc, body, post, pre):
        for it in range(n + 1):
            if not post or it > 0:
                if condvar: self.declvar(*condvar)
                if cond is not None and not self.decide(self.asbool(self.rv(cond))): return
            if it == n:
                self.oblige(FALSE, 'unwinding bound %d suffices' % n); raise PathEnd()
            try:
                def b():
                    if pre: self.stmt(pre)
                    self.stmt(body)
                try: self.block_scope(b)
                except ContinueEx: pass
                if inc: self.anyv(inc)
            except BreakEx: return
    def diff(self, head, roots, info):
        changed = {}
        for r in roots | {r for r in self.store if r.startswith(('heap.', 'live.'))}:
            b = self.store.get(r)
            a = head[r] if r in head else var(r, b.sort)
            if a is not b: self.diff_val(a, b, LV(r, (), None), changed)
        new = False
        for k, (lv, what) in changed.items():
            old = info.mod.get(k)
            if old is None: info.mod[k] = (lv, what); new = True
            elif not what <= old[1]: info.mod[k] = (lv, old[1] | what); new = True
        if new:
            # what was refuted so far may have been refuted against too small a set of modified places
            for i in self.w.loops.values(): i.dropped = set()
            raise Restart()
    def diff_val(self, a, b, lv, out):
        if a is b: return
        if isinstance(a, RecVal) and isinstance(b, RecVal) and set(a.f) == set(b.f):
            for k in a.f: self.diff_val(a.f[k], b.f[k], LV(lv.root, lv.path + (('f', k, None),), None), out)
            return
        if isinstance(a, Term) and isinstance(b, Term):
            if isinstance(a.sort, tuple) and a.sort[0] == 'Vec':
                wh = set()
                if vlen(a) is not vlen(b) and not self.entails(eq(vlen(a), vlen(b))): wh.add('len')
                if varr(a) is not varr(b): wh.add('arr')
                if wh: out[lv.key()] = (lv, frozenset(wh))
                return
            out[lv.key()] = (lv, frozenset(['val'])); return
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if not (a.c.same(b.c) and a.rev == b.rev and a.nul == b.nul): raise Unsupported('pointer changes its object in a loop')
            if a.i is not b.i: out[lv.key()] = (lv, frozenset(['idx']))
            return
        if isinstance(a, Obj) and isinstance(b, Obj) and a.lv.same(b.lv): return
        if isinstance(a, (HP, FP)) and type(a) is type(b):
            if a.id is not b.id: out[lv.key()] = (lv, frozenset(['val']))
            return
        if isinstance(a, Opaque) and isinstance(b, Opaque): return
        if a is Null and b is Null: return
        if isinstance(a, InsertIter) and isinstance(b, InsertIter) and a.lv.same(b.lv): return
        raise Unsupported('loop changes a %s into a %s' % (type(a).__name__, type(b).__name__))
    def havoc(self, lv, what):
        if lv.root not in self.store:
            if lv.root.startswith('heap.'): self.heap(self.w.heaptypes[lv.root])
            elif lv.root.startswith('live.'): self.live(self.w.heaptypes[lv.root])
            else: return
        v = self.store[lv.root]
        ok = True
        for k, x, t in lv.path:
            if not isinstance(v, RecVal) or x not in v.f: ok = False; break
            v = v.f[x]
        if not ok: return
        base = 'h.' + str(lv.root).split('!')[0]
        if isinstance(v, Term):
            if isinstance(v.sort, tuple) and v.sort[0] == 'Vec':
                t = self.lvtype(lv)
                n = vlen(v) if 'len' not in what else self.freshvar(base + '.len', 'Int')
                a = self.freshvar(base + '.arr', ('Array', v.sort[1])) if ('arr' in what or 'len' in what) else varr(v)
                nv = mkvec(n, a)
                if 'len' in what: self.assume(le(0, n), le(n, LIM))
                self.assume(forall(1, lambda k: imp(disj(lt(k, 0), ge(k, n)), eq(select(a, k), default(v.sort[1]))), pats=lambda k: [[select(a, k)]]))
                if t is not None and seqelem(t) is not None: self.assume(*elem_facts(nv, seqelem(t)))
                if t is not None and t.strip().tmpl in ('std::set', 'std::multiset', 'std::map', 'std::multimap'): self.assume(*vals.set_facts(nv, t.strip()))
            else:
                nv = self.freshvar(base, v.sort)
                t = self.lvtype(lv)
                if t is not None: self.assume(*type_facts(nv, t))
        elif isinstance(v, Ptr):
            nv = v.at(self.freshvar(base + '.idx', 'Int'))
            n = vlen(self.read(v.c))
            self.assume(le(-LIM, nv.i), le(nv.i, 2 * LIM))
        elif isinstance(v, (HP, FP)):
            nv = type(v)(v.t, self.freshvar(base, 'Int')); self.assume(le(0, nv.id))
        else: raise Unsupported('havoc of %r' % (v,))
        self.write(lv, nv)
    def lvtype(self, lv):
        """C++ type of the object at lv (paths of fields only)"""
        t = self.root_type(lv.root)
        for k, x, _ in lv.path:
            if t is None: return None
            t = t.strip()
            if k == 'f':
                if is_stream(t) or t.s == 'stream': return None
                try: t = dict((a, b) for a, b, _ in comps(t)).get(x)
                except Unsupported: return None
            else: t = seqelem(t)
        return t.strip() if t is not None else None
    def root_type(self, root):
        for f in reversed(self.frames):
            for lv in f.env.values():
                if isinstance(lv, LV) and lv.root == root and not lv.path: return lv.type.strip()
            if f.this is not None and f.this.root == root and not f.this.path: return f.this.type.strip()
        return self.old.get(('type', root))

FPCALL = {}      # function type -> what calling an unknown function of that type may do
class HeapSeq:
    """stands for the type of the sequence of all heap objects of one type"""
    k = 'array'; tmpl = None; isref = False; isint = False; const = False; rec = None
    def __init__(self, to): self.to = to; self.s = 'heap of ' + to.s; self.d = {'n': 0}
    def strip(self): return self
class _IntT:
    k = 'int'; w = 32; sg = 1; s = 'int'; isref = False; isint = True; const = False; tmpl = None; rec = None; d = {}
    def strip(self): return self
INTT = _IntT()
def ptrid(a):
    if isinstance(a, (HP, FP)): return a.id
    if a is Null: return num(0)
    if isinstance(a, FnVal): return fnno(a.fn.key)
    if isinstance(a, Obj) and a.lv.root.startswith('heap.') and len(a.lv.path) == 1: return a.lv.path[0][1]
    raise Unsupported('pointer comparison with %r' % (a,))
_needs = {}
def loop_ids(b):
    """ordinal of each loop statement within its function body"""
    ids = {}
    def walk(x):
        if isinstance(x, list):
            if x and x[0] in ('while', 'do', 'for', 'forrange') and len(x) > 2 and isinstance(x[1], int) and id(x) not in ids: ids[id(x)] = len(ids)
            for y in x: walk(y)
    walk(b.body)
    return ids
def key_str(key):
    """loop key without line numbers"""
    return ' > '.join(str(k[0]) for k in key[:-1]) + ' > ' + '%s#%s' % (key[-1][0], key[-1][1][1])

STD_EXC = {'std::invalid_argument': 'std::logic_error', 'std::out_of_range': 'std::logic_error', 'std::length_error': 'std::logic_error', 'std::domain_error': 'std::logic_error',
           'std::logic_error': 'std::exception', 'std::runtime_error': 'std::exception', 'std::overflow_error': 'std::runtime_error', 'std::bad_alloc': 'std::exception', 'std::bad_cast': 'std::exception'}
def exc_is(prog, name, target):
    if name == target: return True
    if name in STD_EXC: return exc_is(prog, STD_EXC[name], target)
    for tu in prog.tus:
        for i, r in enumerate(tu.d['recs']):
            R = tu.rec(i)
            if R.name == name and R.d.get('bases'): return any(exc_is(prog, b.s, target) for b in R.bases)
    return False
