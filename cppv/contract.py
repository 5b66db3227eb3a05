"""Contracts: pre/postconditions, exceptional postconditions, class invariants."""
from .terms import *
from .terms import mangle
from .vals import *
from . import vals

INV = {}          # C++ type -> function(term) -> [Term]   (class invariants)
CONTRACTS = {}    # short key -> Contract

def short(k):
    return k.replace('(anonymous namespace)::', '').replace('ringing::', '')

class Contract:
    def __init__(self, key, **kw):
        self.key = key
        self.requires = kw.pop('requires', None)
        self.ensures = kw.pop('ensures', None)
        self.throws = kw.pop('throws', [])         # [(exception type, cond(c))]: thrown exactly when
        self.maythrow = kw.pop('maythrow', [])     # exception types it may throw, unspecified when
        self.inv = kw.pop('inv', None)             # [generator(L)] of loop-invariant candidates
        self.ret_ref = kw.pop('ret_ref', None)     # 'this' or index of parameter returned by reference
        self.modifies = kw.pop('modifies', None)   # subset of {'this', 0, 1, ..} (default: everything non-const)
        self.noinv = kw.pop('noinv', ())           # things whose class invariant is not assumed/ensured: 'this', 'this1', i, 'result'
        self.strong = kw.pop('strong', True)       # strong exception guarantee: on a throw nothing visible changed
        self.alias = kw.pop('alias', [])           # parameters to verify also as aliases of *this
        self.trusted = kw.pop('trusted', None)     # reason, if the body is not verified
        self.prop = kw.pop('prop', None)
        self.unroll = kw.pop('unroll', None)
        self.ghost = kw.pop('ghost', None)         # facts (lemma instances) to assume at entry; each must be a proved lemma
        self.globals = kw.pop('globals', {})
        self.lemmas = kw.pop('lemmas', None)       # names of axiom groups to offer in addition to those triggered by symbols
        self.nolemmas = kw.pop('nolemmas', ())
        self.timeout = kw.pop('timeout', None)
        self.exitghost = kw.pop('exitghost', None)
        self.params = kw.pop('params', None)       # function(X) -> argument values (for pointer parameters)
        self.decreases = kw.pop('decreases', None)  # measure of the recursion
        self.variant = kw.pop('variant', [])       # [generator(L)] of loop variants
        self.terminates = kw.pop('terminates', True)
        self.mutates = kw.pop('mutates', False)    # a const function that changes mutable members
        self.heapthis = kw.pop('heapthis', False)  # verify with *this on the heap
        self.heap = kw.pop('heap', ())             # heap roots ('heap.T', 'live.T') it may change
        self.xensures = kw.pop('xensures', None)   # what holds when one of `maythrow` escapes
        self.keepref = kw.pop('keepref', False)
        assert not kw, kw
    def __repr__(self): return 'Contract(%s)' % self.key

def contract(key, **kw):
    c = Contract(key, **kw); CONTRACTS[key] = c
    return c

class Lookup:
    def __init__(self, only=None): self.only = only
    def get(self, key):
        return CONTRACTS.get(short(key))

def inv_facts(x, t):
    """class invariants of everything inside a value of C++ type t"""
    t = t.strip(); out = []
    if t.isref or t.k not in ('rec', 'array'): return out
    f = INV.get(short(t.s))
    if f is not None: out += [T(a) for a in f(x)]
    e = vals.seqelem(t)
    if e is not None:
        if e.k in ('rec', 'array') and has_sort(e):
            probe = bvar('invprobe', sort_of(e))
            for g in inv_facts(probe, e):
                out.append(lift_guard(x, g, probe))
        return out
    if t.k == 'rec' and (t.tmpl == 'std::pair' or (t.rec is not None and t.rec.repo)) and has_sort(t):
        cs = comps(t)
        for k, ct, _ in cs:
            out += inv_facts(x if len(cs) == 1 else recget(x, k), ct)
    return out
def lift_guard(x, g, probe):
    def inst(k):
        el = vget(x, k); return subst(g, {probe: el})
    k = bvar('ig%d' % next(vals._lf), 'Int')
    f = inst(k); guard = conj(le(0, k), lt(k, vlen(x)))
    if f.op == 'forall':
        vs, body, pats = qparts(f)
        return quant('forall', [k] + list(vs), imp(guard, body), pats)
    return quant('forall', [k], imp(guard, f), [[vget(x, k)]])

class Ctx:
    """what a contract sees: pre-state, post-state and result"""
    def __init__(self, X, fn, this, args):
        self.X = X; self.fn = fn; self._this = this; self._args = args
        self.pre_this = self.snap(this) if this is not None and X.store.get(this.root) is not None else None
        self.pre_args = [self.snap(a, p) for a, p in zip(args, fn.ps)]
        self.glob0 = dict(X.store)
        self.res = None
    def snap(self, a, p=None):
        if isinstance(a, LV):
            try: v = self.X.read(a)
            except Unsupported: return None
            t = a.type
        else: v = a; t = p
        if isinstance(v, (Ptr,)): return PtrView(self.X, v)
        if v is Null and t is not None and t.strip().k == 'ptr' and has_sort(t.strip()): return num(0)
        if isinstance(v, (Obj, NullT, MaybePtr, Opaque, FnVal)): return v
        if isinstance(v, RecVal) and v.name == 'stream': return v
        try: return to_term(deref(self.X, v), t)
        except Unsupported: return v
    @property
    def this(self): return self.pre_this
    @property
    def this1(self): return self.snap(self._this)
    def __getitem__(self, i): return self.pre_args[i]
    def post(self, i): return self.snap(self._args[i], self.fn.ps[i])
    @property
    def result(self): return self.res
    def heap(self, root, when='pre'):
        """all objects of one type: root is 'heap.T' or 'live.T'"""
        X = self.X
        st = X.store if when == 'post' else self.glob0
        if root in st: return st[root]
        t = X.w.heaptypes.get(root) or find_type(X, root[5:])
        now = X.heap(t) if root.startswith('heap.') else X.read(X.live(t))
        return now if when == 'post' else var(root, now.sort)
    def glob(self, name, when='pre'):
        lv = None
        for g, v in self.X.w.prog.globals.items():
            if short(g) == name: lv = self.X.global_lv(v)
        return self.snap(lv)

GHOST = {}        # names of heap sequences that exist only in contracts
def find_type(X, name):
    if name == 'int':
        from .exec import INTT
        return INTT
    for tu in X.w.prog.tus:
        for i in range(len(tu.d['types'])):
            t = tu.type(i)
            if t.s == name and not t.const: return t
    if name in GHOST: return GHOST[name]
    raise Unsupported('type ' + name)

def deref(X, v):
    """v with what its reference members refer to"""
    if not isinstance(v, RecVal): return v
    return RecVal(v.name, {k: X.read(o.lv) if isinstance(o, Obj) and not o.lv.root.startswith('heap.') else o for k, o in v.f.items()})
class PtrView:
    """a pointer argument: the sequence it points into and the position"""
    def __init__(self, X, p): self.p = p; self.vec = X.read(p.c); self.i = p.i

def apply_contract(X, c, fn, this, args, ctor):
    from .exec import CxxThrow
    ctx = Ctx(X, fn, this if not ctor else None, args)
    nm = short(fn.key)
    # class invariants and precondition
    if this is not None and not ctor and 'this' not in c.noinv and ctx.this is not None and isinstance(ctx.this, Term):
        for g in inv_facts(ctx.this, this.type): X.oblige(g, 'invariant of the object passed to ' + nm, 'pre')
    for i, (a, p) in enumerate(zip(ctx.pre_args, fn.ps)):
        if i not in c.noinv and isinstance(a, Term):
            for g in inv_facts(a, p): X.oblige(g, 'invariant of argument %d of %s' % (i + 1, nm), 'pre')
    if c.requires:
        for g in aslist(c.requires(ctx)): X.oblige(g, 'precondition of ' + nm, 'pre')
    if X.old.get('contract') is c:
        if c.decreases:
            m = T(c.decreases(ctx)); X.oblige(conj(le(0, m), lt(m, X.old['measure'])), 'the recursion makes progress', 'term')
        elif c.terminates: X.oblige(FALSE, 'the recursion has a measure', 'term')
    for et, cond in c.throws:
        if X.decide(cond(ctx)): raise CxxThrow(et, RecVal(et, {}))
    def frame():
        for what, lv, t in modified(c, fn, this if not ctor else None, args):
            try: v0 = X.read(lv)
            except Unsupported: v0 = None
            if isinstance(v0, Ptr): X.write(lv, v0.at(X.freshvar(short(fn.n) + '.it', 'Int'))); continue   # an iterator stays in its container
            if isinstance(v0, RecVal) and v0.name == 'stream': X.write(lv, fresh_stream(X, fn.n)); continue
            v = X.fresh_val(t, short(fn.n) + '.out')
            refs = {k: o for k, o in v0.f.items() if isinstance(o, Obj) and not o.lv.root.startswith('heap.')} if isinstance(v0, RecVal) else {}
            if refs:        # its reference members go on referring to the same objects
                v = RecVal(v0.name, {k: refs[k] if k in refs else recget(v, k) if isinstance(v, Term) else v.f[k] for k in v0.f})
            X.write(lv, v)
            v = deref(X, v)
            if what not in c.noinv and ('this1' if what == 'this' else what) not in c.noinv:
                X.assume(*inv_facts(to_term(v, t), t))
        for r in c.heap:
            ctx.heap(r, 'post'); h0 = X.store[r]
            a = X.freshvar(r, ('Array', h0.sort[1])); X.store[r] = mkvec(vlen(h0), a)
    for et in c.maythrow:
        if X.decide(X.freshvar('throws', 'Bool')):
            if c.xensures:
                frame(); ctx._this = this
                X.assume(*[T(g) for _, g in lab_list(c.xensures(ctx))])
            raise CxxThrow(et, RecVal(et, {}))
    frame()
    if ctor:
        t = this.type
        v = X.fresh_val(t, 'new.' + fn.n)
        X.store[this.root] = v
        if 'this1' not in c.noinv: X.assume(*inv_facts(to_term(v, t), t))
    ctx._this = this
    r = None; rt = fn.ret
    if rt.isref:
        rr = c.ret_ref if c.ret_ref is not None else ('this' if not fn.const and this is not None else None)
        if rr == 'this': r = this
        elif isinstance(rr, int): r = args[rr]
        else: raise Unsupported('reference result of ' + fn.key)
    elif rt.k == 'void': r = None
    elif rt.k == 'ptr' or is_iter(rt):
        if callable(c.ret_ref): r = c.ret_ref(X, ctx)
        elif rt.k == 'ptr' and has_sort(rt): r = X.fresh_val(rt, short(fn.n) + '.ret')
        else: raise Unsupported('pointer result of ' + fn.key)
    else:
        r = X.fresh_val(rt, short(fn.n) + '.ret')
        if 'result' not in c.noinv: X.assume(*inv_facts(to_term(r, rt), rt))
    ctx.res = to_term(r, rt) if r is not None and not isinstance(r, (LV, Ptr, Obj, MaybePtr, NullT)) else (PtrView(X, r) if isinstance(r, Ptr) else r)
    if c.ensures:
        gs = [T(g) for lab, g in lab_list(c.ensures(ctx))]
        if isinstance(r, Term) and r.op == 'var':
            # a result given by an equation is that term
            for g in [y for x in gs for y in (x.args if x.op == 'and' else [x])]:
                if g.op != 'eq': continue
                t = None
                if r in g.args: t = g.args[1] if g.args[0] is r else g.args[0]
                elif r.sort == 'Int':
                    d = sub(g.args[0], g.args[1]); k = lin_parts(d)[1].get(r)
                    if k in (1, -1): t = sub(r, d) if k == 1 else add(r, d)
                if t is not None:
                    if ('v', r.data, r.sort) not in syms(t) and t.sort == r.sort:
                        X.assume(*type_facts(t, rt)); gs = [subst(x, {r: t}) for x in gs]; r = t; ctx.res = t; break
        for g in gs: X.assume(g)
    return r

def modified(c, fn, this, args):
    out = []
    if this is not None and (not fn.const or c.mutates) and not fn.static and (c.modifies is None or 'this' in c.modifies): out.append(('this', this, this.type))
    for i, (a, p) in enumerate(zip(args, fn.ps)):
        if isinstance(a, LV) and p.isref and not p.to.const and (c.modifies is None or i in c.modifies): out.append((i, a, p.to))
        elif c.modifies is not None and i in c.modifies and isinstance(a, Obj): out.append((i, a.lv, p.to))
    return out

def aslist(x):
    if x is None: return []
    if isinstance(x, Term) or isinstance(x, bool): return [x]
    return list(x)
def lab_list(x):
    out = []
    for n, g in enumerate(aslist(x)):
        if isinstance(g, tuple): out.append(g)
        else: out.append(('%d' % (n + 1), g))
    return out

def make_task(c, body, alias=None):
    """function Path -> None that sets up an arbitrary pre-state, runs the body and checks the contract"""
    fn = body.fn
    def task(X):
        from .exec import CxxThrow
        isctor = fn.get('ctor') is not None
        this = None
        X.frames = []
        class F: pass
        if fn.cls is not None and not fn.static:
            t = fn.cls
            if c.heapthis:
                i = X.freshvar('this', 'Int'); X.assume(le(1, i)); X.heap(t); r = None
                this = heap_lv(t, i)
            elif isctor:
                r = X.new_root('this', None)
            else:
                r = X.new_root('this', None); X.store[r] = X.fresh_val(t, 'this')
            if r is not None:
                X.old[('type', r)] = t
                this = LV(r, (), t)
        args = []
        custom = c.params(X, fn) if c.params else {}
        for i, p in enumerate(fn.ps):
            nm = body.params[i].n or 'p%d' % i
            if i in custom: args.append(custom[i]); continue
            if alias == i: args.append(this); continue
            if p.k == 'ptr' and p.to.k == 'int' and p.to.w == 8: args.append(cstring(X, nm)); continue
            if p.isref and p.to.k == 'ptr' and p.to.to.k == 'int' and p.to.to.w == 8:
                args.append(LV(X.new_root(nm, cstring(X, nm)), (), p.to)); continue
            v = X.fresh_val(p, nm) if not is_stream(p.strip()) else fresh_stream(X, nm)
            if p.isref:
                r = X.new_root(nm, v); X.old[('type', r)] = p.to; args.append(LV(r, (), p.to))
            else: args.append(v)
        ctx = Ctx(X, fn, this if not isctor else None, args)
        X.old['ctx'] = ctx; X.old['inv'] = c.inv; X.old['contract'] = c; X.old['variant'] = c.variant
        if c.decreases: X.old['measure'] = T(c.decreases(ctx))
        if isinstance(ctx.this, Term) and 'this' not in c.noinv: X.assume(*inv_facts(ctx.this, this.type))
        for i, (a, p) in enumerate(zip(ctx.pre_args, fn.ps)):
            if i not in c.noinv and isinstance(a, Term): X.assume(*inv_facts(a, p))
        if c.requires: X.assume(*[T(g) for g in aslist(c.requires(ctx))])
        if c.ghost: mention(X, c.ghost(ctx))
        X.line = body.d and int(body.loc.rsplit(':', 1)[1] or 0)
        class Fr: pass
        nm = short(fn.key)
        X.oldpc = list(X.pc)
        ctx._this = this
        # the outermost frame makes `oblige` report this function
        try:
            r = X.run_body(body, this, args, ctor=isctor)
        except CxxThrow as x:
            X.frames = [FakeFrame(body)]
            X.covered = True
            X.w.exits.add('throw ' + x.tname); X.reach('throw ' + short(x.tname))
            hit = [cond for et, cond in c.throws if x.tname == et]
            if hit: X.oblige(disj(*[h(ctx) for h in hit]), '%s thrown only when specified' % short(x.tname), 'post')
            elif x.tname in c.maythrow:
                if c.xensures:
                    for lab, g in lab_list(c.xensures(ctx)): X.oblige(g, 'when %s escapes: %s' % (short(x.tname), lab), 'post')
            else: X.oblige(FALSE, 'no %s exception escapes' % short(x.tname), 'post')
            if c.strong and not isctor and hit:
                for what, lv, t in modified(c, fn, this, args):
                    a = ctx.this if what == 'this' else ctx[what]
                    b = X.read(lv)
                    if isinstance(a, PtrView): X.oblige(T(isinstance(b, Ptr) and b.c.same(a.p.c)), 'unchanged when an exception is thrown', 'post'); X.oblige(eq(a.i, b.i), 'unchanged when an exception is thrown', 'post')
                    if isinstance(a, Term): X.oblige(eq(a, to_term(b, t)), 'unchanged when an exception is thrown', 'post')
                for r in sorted(X.store):
                    if r.startswith(('heap.', 'live.')): X.oblige(eq(var(r, X.store[r].sort), X.store[r]), 'unchanged when an exception is thrown', 'post')
            return
        X.frames = [FakeFrame(body)]
        X.line = body.endline
        X.covered = True
        X.w.exits.add('return'); X.reach('return')
        rt = fn.ret
        for et, cond in c.throws: X.oblige(mk_not(cond(ctx)), 'throws %s when specified' % short(et), 'post')
        if rt.isref:
            rr = c.ret_ref if c.ret_ref is not None else ('this' if not fn.const and this is not None else None)
            want = this if rr == 'this' else args[rr] if isinstance(rr, int) else None
            if want is not None: X.oblige(T(isinstance(r, LV) and r.same(want)), 'returns the right reference', 'post')
            ctx.res = ctx.snap(r)
        elif rt.k == 'void' or isctor: ctx.res = None
        else: ctx.res = ctx.snap(r, rt)
        if c.exitghost: mention(X, c.exitghost(ctx))
        for r in sorted(X.store):
            if r.startswith(('heap.', 'live.')) and r not in c.heap and not (c.heapthis and r == 'heap.' + this.type.s):
                v0 = var(r, X.store[r].sort)
                X.oblige(eq(v0, X.store[r]), 'frame: nothing else changes', 'post')
        if c.heapthis and not fn.const and 'heap.' + this.type.s not in c.heap:
            r = this.root; h = X.store[r]; h0 = var(r, h.sort); i = this.path[0][1]
            X.oblige(forall(1, lambda k: imp(ne(k, i), eq(vget(h, k), vget(h0, k))), pats=lambda k: [[vget(h, k)]]), 'frame: no other object changes', 'post')
        if c.ensures:
            for lab, g in lab_list(c.ensures(ctx)): X.oblige(g, 'postcondition ' + lab, 'post')
        if not isctor or True:
            for what, lv, t in modified(c, fn, this, args):
                if what in c.noinv or ('this1' if what == 'this' else what) in c.noinv: continue
                v = X.read(lv)
                if has_sort(t):
                    for g in inv_facts(to_term(deref(X, v), t), t): X.oblige(g, 'class invariant holds afterwards', 'post')
        if isinstance(ctx.res, Term) and 'result' not in c.noinv:
            for g in inv_facts(ctx.res, rt): X.oblige(g, 'class invariant of the result', 'post')
        # frame: by-reference arguments that must not change
        if c.modifies is not None:
            full = Contract(c.key)
            for what, lv, t in modified(full, fn, this if not isctor else None, args):
                if what not in c.modifies:
                    a = ctx.this if what == 'this' else ctx[what]
                    if isinstance(a, Term): X.oblige(eq(a, to_term(X.read(lv), t)), 'frame: unchanged', 'post')
    return task

def mention(X, gs):
    """put terms into the context (as names for themselves) so that lemmas about them fire"""
    for g in aslist(gs):
        g = T(g); X.assume(declare('mention_' + mangle(g.sort), (g.sort,), 'Bool')(g))

def fresh_stream(X, nm):
    b = X.freshvar(nm + '.buf', ('Vec', 'Int')); X.assume(*text_facts(b))
    return RecVal('stream', {'buf': b, 'ok': TRUE})
def text_facts(b):
    n = vlen(b)
    return [le(0, n), le(n, vals.LIM), forall(1, lambda k: imp(disj(lt(k, 0), ge(k, n)), eq(vget(b, k), 0)), pats=lambda k: [[vget(b, k)]]), forall(1, lambda k: conj(le(-128, vget(b, k)), le(vget(b, k), 127)), pats=lambda k: [[vget(b, k)]])]
class FakeFrame:
    def __init__(self, body): self.fn = body.fn; self.tu = body.tu; self.env = {}; self.this = None; self.objs = []

class _CharT:
    pass
def cstring(X, nm):
    """an arbitrary NUL-terminated string (content without its NUL)"""
    v = X.freshvar(nm, ('Vec', 'Int'))
    n = vlen(v)
    X.assume(le(0, n), le(n, vals.LIM),
             forall(1, lambda k: imp(disj(lt(k, 0), ge(k, n)), eq(vget(v, k), 0)), pats=lambda k: [[vget(v, k)]]),
             forall(1, lambda k: conj(le(-128, vget(v, k)), le(vget(v, k), 127)), pats=lambda k: [[vget(v, k)]]),
             forall(1, lambda k: imp(conj(le(0, k), lt(k, n)), ne(vget(v, k), 0)), pats=lambda k: [[vget(v, k)]]))
    r = X.new_root(nm, v)
    t = CHARSEQ
    return Ptr(LV(r, (), t), num(0), nul=True)
class _T:
    def __init__(self, **kw): self.__dict__.update(kw)
    def strip(self): return self
CHAR = _T(k='int', w=8, sg=1, s='char', isref=False, isint=True, tmpl=None, const=False, d={})
CHARSEQ = _T(k='rec', s='std::string', isref=False, isint=False, tmpl='std::basic_string', const=False, targs=[CHAR], rec=None, d={})

def seqiters(X, fn):
    """iterator parameters: arbitrary positions of one arbitrary sequence"""
    et = fn.ps[0].strip().targs[0].to; s = ('Vec', sort_of(et))
    v = X.freshvar('seq', s); k = [X.freshvar('it%d' % i, 'Int') for i in range(2)]
    X.assume(le(0, vlen(v)), le(vlen(v), vals.LIM), le(0, k[0]), le(k[0], k[1]), le(k[1], vlen(v)))
    t = _T(k='rec', s='std::vector<%s>' % et.s, isref=False, isint=False, tmpl='std::vector', const=False, targs=[et], rec=None, d={})
    X.assume(*inv_facts(v, t))
    lv = LV(X.new_root('seq', v), (), t)
    return {i: Ptr(lv, k[i]) for i in range(2)}
def iterators(X, fn):
    """iterator parameters: arbitrary positions of one arbitrary string (a first/last pair is a valid range)"""
    out = {}; c = None; prev = None
    v = X.freshvar('text', ('Vec', 'Int')); n = vlen(v)
    X.assume(le(0, n), le(n, vals.LIM),
             forall(1, lambda k: imp(disj(lt(k, 0), ge(k, n)), eq(vget(v, k), 0)), pats=lambda k: [[vget(v, k)]]),
             forall(1, lambda k: conj(le(-128, vget(v, k)), le(vget(v, k), 127)), pats=lambda k: [[vget(v, k)]]))
    lv = LV(X.new_root('text', v), (), CHARSEQ)
    for i, p in enumerate(fn.ps):
        t = p.to if p.isref else p
        if not (is_iter(t) or (t.k == 'ptr' and t.to.k == 'int' and t.to.w == 8)): continue
        k = X.freshvar('it%d' % i, 'Int'); X.assume(le(0, k), le(k, n))
        if prev is not None: X.assume(le(prev, k))
        prev = k; q = Ptr(lv, k)
        if p.isref:
            r = X.new_root('it%d' % i, q); X.old[('type', r)] = t; out[i] = LV(r, (), t)
        else: out[i] = q
    return out
