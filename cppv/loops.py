"""Invariant candidates for loops."""
from .terms import *
from .vals import *

class IntAt:
    """an integer-valued place: scalar variable or the index of an iterator/pointer"""
    def __init__(self, name, lv, kind, type): self.name = name; self.lv = lv; self.kind = kind; self.type = type

class LoopView:
    """what a contract's candidate generator sees of a loop"""
    def __init__(self, X, s, cond, key, body):
        self.X = X; self.s = s; self.cond = cond; self.key = key; self.moment = 'entry'
        self.ints = []; self.vecs = []; self.recs = []; self.bools = []
        self.fnkey = X.frames[-1].fn.key
        seen = set()
        frames = [f for f in X.frames]
        for f in reversed(frames):
            for vid, lv in f.env.items():
                if isinstance(lv, LV) and lv.key() not in seen:
                    seen.add(lv.key()); self._add(f.tu.var(vid).n or 'anon', lv)
            if f.this is not None and f.this.key() not in seen:
                seen.add(f.this.key()); self._add('this', f.this)
        self.entry = {k: v for k, v in X.store.items()}
        self.entry_vals = {}
        for p in self.ints: self.entry_vals[p.lv.key()] = self._int(p)
        for n, lv, t in self.vecs: self.entry_vals[lv.key()] = X.read(lv)
        self.c = X.old.get('ctx')
        self.cmps = []
        if cond is not None: self._cmps(cond)
    def _add(self, name, lv):
        try: v = self.X.read(lv)
        except Unsupported: return
        self._addv(name, lv, v, lv.type.strip())
    def _addv(self, name, lv, v, t):
        t = t.strip()
        if isinstance(v, Term):
            if v.sort == 'Int': self.ints.append(IntAt(name, lv, 'val', t))
            elif v.sort == 'Bool': self.bools.append((name, lv))
            elif isinstance(v.sort, tuple) and v.sort[0] == 'Vec': self.vecs.append((name, lv, t))
        elif isinstance(v, Ptr): self.ints.append(IntAt(name, lv, 'ptr', t))
        elif isinstance(v, HP): self.ints.append(IntAt(name, lv, 'hp', t))
        elif isinstance(v, RecVal):
            self.recs.append((name, lv, t))
            for k, x in v.f.items():
                ct = None
                if v.name != 'stream':
                    try: ct = dict((a, b) for a, b, _ in comps(t)).get(k)
                    except Unsupported: ct = None
                elif k == 'buf': 
                    self.vecs.append((name + '.buf', lv.field('buf', lv.type), None)); continue
                if ct is not None: self._addv(name + '.' + k, lv.field(k, ct), x, ct)
    # values at the current moment
    def _int(self, p):
        v = self.X.read(p.lv)
        if isinstance(v, Ptr): return v.i
        if isinstance(v, HP): return v.id
        if not isinstance(v, Term): raise Unsupported('int')
        return v
    def int(self, p): return self._int(p)
    def vec(self, p): return self.X.read(p[1])
    def int0(self, p): return self.entry_vals[p.lv.key()]
    def vec0(self, p): return self.entry_vals[p[1].key()]
    def modified(self, lv):
        info = self.X.w.loops.get(self.key)
        if info is None: return False
        k = lv.key()
        return any(k[:len(m)] == m or m[:len(k)] == k for m in info.mod)
    @property
    def mints(self): return [p for p in self.ints if self.modified(p.lv)]
    @property
    def mvecs(self): return [p for p in self.vecs if self.modified(p[1])]
    def vecs_of(self, *elems):
        return [p for p in self.vecs if p[2] is not None and seqelem(p[2]) is not None and seqelem(p[2]).s in elems]
    def _cmps(self, e):
        if not isinstance(e, list): return
        if e and e[0] == 'bin' and e[4] in ('<', '<=', '>', '>=', '!=', '=='): self.cmps.append((e[4], e[5], e[6], None))
        if e and e[0] in ('mcall', 'call') and len(e) > 5:
            fn = self.X.tu.fn(e[4])
            op = fn.n.replace('operator', '')
            if op in ('!=', '==', '<', '<=', '>', '>='):
                a = (e[5][0], e[5][1]) if e[0] == 'call' and len(e[5]) == 2 else (e[5], e[7][0]) if e[0] == 'mcall' and e[7] else None
                if a: self.cmps.append((op, a[0], a[1], None))
        for x in e: self._cmps(x)
    def pure(self, e):
        X = self.X
        from .exec import PathEnd
        X.suppress += 1
        s, p, ps, m = dict(X.store), list(X.pc), set(X.pcset), X.q.mark()
        line = X.line
        try:
            v = X.rv(e)
            if isinstance(v, Ptr): return v.i if not v.rev else sub(0, v.i)
            if isinstance(v, RecVal) and len(v.f) == 1: v = list(v.f.values())[0]
            if isinstance(v, Term) and v.sort == 'Int': return v
            return None
        except (Unsupported, PathEnd): return None
        finally:
            # nothing assumed here may leak: preconditions are not checked while evaluating purely
            X.suppress -= 1; X.store = s; X.line = line; X.pc = p; X.pcset = ps; X.q.release(m)
    def variants(self):
        """[(label, term)]: integer measures that may decrease at every iteration"""
        out = []; names = {}
        def put(n, t):
            k = names.get(n, 0); names[n] = k + 1
            out.append(('V:' + n + ('~%d' % k if k else ''), T(t)))
        for g in self.X.old.get('variant') or []:
            for n, t in g(self) or []: put(n, t)
        for n, (op, a, b, _) in enumerate(self.cmps):
            x = self.pure(a); y = self.pure(b)
            if x is None or y is None: continue
            put('cmp%d' % n, sub(y, x)); put('-cmp%d' % n, sub(x, y))
        for p in self.mints:
            x = self._int(p); put(p.name, x)
            if p.kind == 'ptr':
                v = self.X.read(p.lv)
                if isinstance(v, Ptr): put('end-' + p.name, sub(vlen(self.X.read(v.c)), x))
        for v in self.mvecs: put('len ' + v[0], vlen(self.vec(v)))
        return out
    def candidates(self, only=None):
        out = []
        count = {}
        def put(label, mk):
            k = count.get(label, 0); count[label] = k + 1
            if k: label = '%s~%d' % (label, k)
            if only is not None and label not in only: return
            out.append((label, T(mk)))
        # comparisons in the loop condition
        for n, (op, a, b, _) in enumerate(self.cmps):
            x = self.pure(a); y = self.pure(b)
            if x is None or y is None: continue
            put('cmp%d<=' % n, le(x, y)); put('cmp%d>=' % n, ge(x, y))
            put('cmp%d<=+1' % n, le(x, add(y, 1))); put('cmp%d>=-1' % n, ge(x, sub(y, 1)))
        mi = self.mints
        for p in mi:
            x = self._int(p); x0 = self.int0(p)
            put('%s>=entry' % p.name, ge(x, x0)); put('%s<=entry' % p.name, le(x, x0))
            put('%s>=0' % p.name, ge(x, 0)); put('%s>=-1' % p.name, ge(x, -1))
            put('%s>=1' % p.name, ge(x, 1))
            if p.kind == 'ptr':
                v = self.X.read(p.lv)
                if isinstance(v, Ptr): put('%s<=end' % p.name, le(x, vlen(self.X.read(v.c))))
        for i, p in enumerate(mi):
            for q in mi[i + 1:]:
                dx = sub(self._int(p), self.int0(p)); dy = sub(self._int(q), self.int0(q))
                put('%s-%s' % (p.name, q.name), eq(dx, dy)); put('%s+%s' % (p.name, q.name), eq(add(dx, dy), 0))
                put('%s-2%s' % (p.name, q.name), eq(dx, scale(2, dy))); put('2%s-%s' % (p.name, q.name), eq(scale(2, dx), dy))
            for v in self.mvecs:
                dl = sub(vlen(self.vec(v)), vlen(self.vec0(v)))
                dx = sub(self._int(p), self.int0(p))
                if dl is not num(0): put('%s-len(%s)' % (p.name, v[0]), eq(dx, dl)); put('%s-2len(%s)' % (p.name, v[0]), eq(dx, scale(2, dl)))
        for v in self.mvecs:
            if vlen(self.vec(v)) is not vlen(self.vec0(v)) or self.moment != 'back':
                put('len(%s)>=entry' % v[0], ge(vlen(self.vec(v)), vlen(self.vec0(v))))
        from . import contract as C
        for n, lv, t in list(self.recs) + [x for x in self.vecs if x[2] is not None]:
            if not self.modified(lv) or t is None or t.k not in ('rec', 'array') or is_iter(t) or not has_sort(t): continue
            try: x = to_term(self.X.read(lv), t)
            except Unsupported: continue
            for j, f in enumerate(C.inv_facts(x, t)): put('inv%d %s' % (j, n), f)
        gen = self.X.old.get('inv')
        for g in gen or []:
            for n, item in enumerate(g(self) or []):
                lab, t = item
                put('c:' + lab, t)
        return out
