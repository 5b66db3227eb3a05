"""In-process z3 for branch feasibility and simple entailments (never used to
discharge an obligation: those go to the solver portfolio in prove.py)."""
import z3
from .terms import *
from . import terms as tm

class Z:
    def __init__(self):
        self.cache = {}; self.sorts = {}; self.funs = {}; self.vars = {}; self.keep = []
    def sort(self, s):
        r = self.sorts.get(s)
        if r is None:
            if s == 'Int': r = z3.IntSort()
            elif s == 'Bool': r = z3.BoolSort()
            elif s[0] == 'Array': r = z3.ArraySort(z3.IntSort(), self.sort(s[1]))
            elif s[0] == 'U': r = z3.DeclareSort(sort_name(s))
            else:
                n = sort_name(s); d = z3.Datatype(n)
                if s[0] == 'Vec': d.declare('mk_' + n, ('len_' + n, z3.IntSort()), ('arr_' + n, self.sort(('Array', s[1]))))
                else: d.declare('mk_' + n, *[('f%d_%s' % (i, n), self.sort(x)) for i, (f, x) in enumerate(RECS[s[1]])])
                r = d.create()
            self.sorts[s] = r
        return r
    def e(self, t):
        r = self.cache.get(t.id)
        if r is None:
            r = self._e(t); self.cache[t.id] = r
        return r
    def _e(self, t):
        o = t.op; e = self.e
        if o == 'int': return z3.IntVal(t.data)
        if o == 'true': return z3.BoolVal(True)
        if o == 'false': return z3.BoolVal(False)
        if o in ('var', 'bvar'): return z3.Const(t.data, self.sort(t.sort))
        if o == 'lin':
            c, ks = t.data
            r = [e(a) if k == 1 else z3.IntVal(k) * e(a) for k, a in zip(ks, t.args)]
            if c: r.append(z3.IntVal(c))
            return z3.Sum(r) if len(r) > 1 else r[0]
        if o == 'mul': return e(t.args[0]) * e(t.args[1])
        if o == 'div': return e(t.args[0]) / e(t.args[1])
        if o == 'mod': return e(t.args[0]) % e(t.args[1])
        if o == 'ge0': return e(t.args[0]) >= 0
        if o == 'eq': return e(t.args[0]) == e(t.args[1])
        if o == 'not': return z3.Not(e(t.args[0]))
        if o == 'and': return z3.And([e(a) for a in t.args])
        if o == 'or': return z3.Or([e(a) for a in t.args])
        if o == 'imp': return z3.Implies(e(t.args[0]), e(t.args[1]))
        if o == 'ite': return z3.If(e(t.args[0]), e(t.args[1]), e(t.args[2]))
        if o == 'select': return z3.Select(e(t.args[0]), e(t.args[1]))
        if o == 'store': return z3.Store(e(t.args[0]), e(t.args[1]), e(t.args[2]))
        if o == 'const': return z3.K(z3.IntSort(), e(t.args[0]))
        if o == 'mk': return self.sort(t.sort).constructor(0)(*[e(a) for a in t.args])
        if o == 'sel': return self.sort(t.args[0].sort).accessor(0, t.data)(e(t.args[0]))
        if o == 'app':
            f = self.funs.get(t.data)
            if f is None:
                a, r = FUNS[t.data]
                f = self.funs[t.data] = z3.Function(t.data, *([self.sort(x) for x in a] + [self.sort(r)]))
            return f(*[e(a) for a in t.args]) if t.args else f()
        if o in ('forall', 'exists'):
            vs, body, pats = qparts(t)
            zp = []
            for p in pats:
                zp.append(z3.MultiPattern(*[e(x) for x in p]) if len(p) > 1 else e(p[0]))
            f = z3.ForAll if o == 'forall' else z3.Exists
            return f([e(v) for v in vs], e(body), patterns=zp) if zp else f([e(v) for v in vs], e(body))
        raise ValueError(o)

_Z = Z()
class Quick:
    def __init__(self, axioms=None):
        self.axioms = axioms     # function: Term -> [axiom terms] relevant
        self.memo = {}
        self.n = 0
    def session(self): return Session(self)

class Session:
    def __init__(self, q):
        self.q = q; self.s = z3.Solver()
        self.s.set('auto_config', False); self.s.set('smt.mbqi', False); self.s.set('rlimit', 400000)
        self.h = 0; self.have = set(); self.pend = []
    def add(self, f):
        self.h = hash((self.h, f.id)); self.pend.append(f)
    def mark(self):
        self.flush(); self.s.push(); return self.h, set(self.have)
    def release(self, m):
        self.s.pop(); self.h, self.have = m; self.pend = []
    def flush(self):
        for f in self.pend:
            if self.q.axioms:
                for a in self.q.axioms(f):
                    if a not in self.have: self.have.add(a); self.s.add(_Z.e(a))
            self.s.add(_Z.e(f))
        self.pend = []
    def _check(self, g, keepax=True):
        k = (self.h, g.id)
        r = self.q.memo.get(k)
        if r is None:
            self.flush(); self.q.n += 1
            self.s.push()
            if self.q.axioms:
                for a in self.q.axioms(g):
                    if a not in self.have: self.s.add(_Z.e(a))
            self.s.add(_Z.e(g))
            r = self.s.check()
            self.s.pop()
            r = self.q.memo[k] = str(r)
        return r
    def sat(self, g): return self._check(T(g)) != 'unsat'
    def entails(self, g): return self._check(mk_not(T(g))) == 'unsat'
