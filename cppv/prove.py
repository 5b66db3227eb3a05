"""Obligation discharge: solver portfolio, axiom selection, Houdini."""
import itertools, os, subprocess, tempfile, threading, time, json, hashlib
from concurrent.futures import ThreadPoolExecutor
from .terms import *
from .exec import *
from .exec import key_str
from . import contract as C
from .quick import Quick

JOBS = int(os.environ.get('VERIF_JOBS', '8'))
Z3 = '/usr/local/bin/z3-new' if os.path.exists('/usr/local/bin/z3-new') else 'z3'
TMP = None

class AxiomLib:
    def __init__(self): self.ax = []; self.cache = {}
    def add(self, name, term, trigger=None, kind='lemma'):
        """trigger: function symbols that make the axiom relevant (default: all in its patterns)"""
        fs = {s[1] for s in syms(term) if s[0] == 'f'}
        self.ax.append((name, term, frozenset(trigger) if trigger is not None else frozenset(fs), frozenset(fs), kind))
        self.cache.clear()
    def relevant(self, fsyms, skip=()):
        """closure: axioms all of whose trigger symbols occur"""
        k = (frozenset(fsyms), tuple(skip))
        if k in self.cache: return self.cache[k]
        have = set(fsyms); out = []; changed = True; used = set()
        while changed:
            changed = False
            for i, (n, t, trig, fs, kind) in enumerate(self.ax):
                if i not in used and n not in skip and trig <= have:
                    used.add(i); changed = True; have |= fs
        out = [(self.ax[i][0], self.ax[i][1]) for i in sorted(used)]
        self.cache[k] = out
        return out
LIB = AxiomLib()

def fsyms_of(ts):
    s = set()
    for t in ts: s |= {x[1] for x in syms(t) if x[0] == 'f'}
    return s

class Result:
    __slots__ = ('status', 'solver', 'time', 'out', 'core')
    def __init__(s, status, solver, time, out='', core=None): s.status = status; s.solver = solver; s.time = time; s.out = out; s.core = core

def run_solver(cmd, text, timeout):
    t0 = time.time()
    try:
        p = subprocess.run(cmd, input=text.encode(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout + 5)
        out = p.stdout.decode(errors='replace')
    except subprocess.TimeoutExpired: out = 'timeout'
    return out, time.time() - t0

def z3cmd(t, extra=()): return [Z3, '-in', '-smt2', '-T:%d' % t] + list(extra)
def cvc5cmd(t, extra=()): return ['cvc5', '--lang=smt2', '--tlimit=%d' % (t * 1000)] + list(extra)

MODES = {
    'z3-e': lambda t: z3cmd(t, ['auto_config=false', 'smt.mbqi=false']),
    'z3-e2': lambda t: z3cmd(t, ['auto_config=false', 'smt.mbqi=false', 'smt.arith.solver=2', 'smt.random_seed=7']),
    'z3-m': lambda t: z3cmd(t, []),
    'cvc5': lambda t: cvc5cmd(t, []),
    'cvc5-f': lambda t: cvc5cmd(t, ['--full-saturate-quant']),
}
def first_word(out):
    for l in out.splitlines():
        l = l.strip()
        if l in ('sat', 'unsat', 'unknown', 'timeout'): return l
    return 'error'

STATS = {'time': 0.0, 'by': {}, 'queries': 0}
_slock = threading.Lock()

def solve(o, plan, axskip=(), want_core=False, lib=None):
    """plan: [(mode, timeout)]"""
    if o.goal is TRUE: return Result('unsat', 'simplifier', 0.0)
    asm = list(o.assume); fs = fsyms_of(asm + [o.goal])
    axs = (lib or LIB).relevant(fs, axskip)
    named = []
    names = {}
    for i, t in enumerate(asm):
        n = 'a%d' % i if want_core else None
        named.append((n, t))
        if want_core: names[n] = t
    for n, t in axs: named.append((None, t))
    # the goal, negated; strip leading universal quantifiers for the solvers
    named.append((None, mk_not(o.goal)))
    # `and`-ed goals are split by the caller
    opts = ['(set-option :produce-unsat-cores true)'] if want_core else []
    text = smt2(named, options=opts)
    last = None; tt = 0
    if DUMP and DUMP in (o.name + str(o.cand)): open('/tmp/q_%d_%s.smt2' % (o.line or 0, hashlib.md5(text.encode()).hexdigest()[:6]), 'w').write(text + '\n(check-sat)\n')
    for mode, tmo in plan:
        pre = '' if mode.startswith('z3') else '(set-logic ALL)\n'
        tail = '\n(check-sat)\n' + ('(get-unsat-core)\n' if want_core and mode.startswith('z3') else '')
        out, dt = run_solver(MODES[mode](tmo), pre + text + tail, tmo)
        tt += dt
        w = first_word(out)
        with _slock:
            STATS['time'] += dt; STATS['queries'] += 1
        if w == 'unsat':
            core = None
            if want_core and mode.startswith('z3'):
                l = out[out.index('unsat') + 5:].strip()
                core = {names[x] for x in l.strip('()').split() if x in names}
            elif want_core: core = set(asm)
            with _slock: STATS['by'][mode] = STATS['by'].get(mode, 0) + 1
            return Result('unsat', mode, tt, core=core)
        last = Result(w, mode, tt, out[:2000])
        if w == 'error': last.out = out[:2000]
        if w == 'sat' and mode in ('z3-m', 'cvc5', 'cvc5-f'): return last
    return last

PLAN_FAST = [('z3-e', 5)]
PLAN_MAIN = [('z3-e', 4), ('cvc5', 6), ('z3-e2', 15), ('z3-m', 10), ('cvc5', 30), ('z3-e', 40)]
PLAN_HINT = [('z3-e', 2), ('cvc5', 4), ('z3-e2', 8), ('cvc5', 12)]     # with recorded invariants; if it does not succeed, they are searched for again

_sk = itertools.count()
_skc = {}
def split_term(g):
    """conjuncts that together imply g (conjunctions, extensionality of sequences and records)"""
    if g.op == 'and': return [x for a in g.args for x in split_term(a)]
    if g.op == 'eq' and isinstance(g.args[0].sort, tuple):
        a, b = g.args; s = a.sort
        if s[0] == 'Vec':
            k = _skc.get(g)
            if k is None: k = _skc[g] = var('ext!%d' % next(_sk), 'Int')
            return split_term(eq(vlen(a), vlen(b))) + split_term(eq(vget(a, k), vget(b, k)))
        if s[0] == 'Rec':
            return [x for f, _ in RECS[s[1]] for x in split_term(eq(recget(a, f), recget(b, f)))]
    if g.op == 'imp' and (g.args[1].op == 'and' or (g.args[1].op == 'eq' and isinstance(g.args[1].args[0].sort, tuple))):
        return [imp(g.args[0], x) for x in split_term(g.args[1])]
    return [g]
def split_goal(o):
    return [Obl(o.name, o.assume, g, o.kind, o.line, o.fn, o.cand) for g in split_term(o.goal)]

class FunctionResult:
    pass

MAXPATHS = 4000
DUMP = os.environ.get('VERIF_DUMP')
DEBUG_CAND = None; DEBUG_FULL = False

def explore(world, task):
    while True:
        world.obls = []; world.oblkeys = set(); world.candterms = {}; world.exits = set(); world.npaths = 0; world.reach = {}; world.lines = set()
        world.loops_seen = set()
        try:
            work = [[]]
            while work:
                pre = work.pop()
                p = Path(world, pre); world.npaths += 1
                if world.npaths > MAXPATHS: raise Unsupported('more than %d paths' % MAXPATHS)
                try: task(p)
                except PathEnd: pass
                work += p.alts
        except Restart: continue
        return

def verify(prog, c, body, alias=None, keep=None, plan=PLAN_MAIN, record=False, log=None, axskip=(), budget=None):
    """Returns dict with status of every obligation of one function against its contract."""
    t0 = time.time()
    axskip = tuple(axskip) + tuple(c.nolemmas)
    quick = Quick(lambda t: [a for n, a in LIB.relevant({x[1] for x in syms(t) if x[0] == 'f'}, axskip)])
    w = World(prog, C.Lookup(), quick)
    w.keep = keep; w.genv = c.globals
    if c.unroll: w.unroll = c.unroll
    task = C.make_task(c, body, alias)
    rounds = 0; proven = {}; refuted = {}
    def run_batch(obls, plan, core=False):
        todo = []
        for o in obls:
            k = o.key()
            if k not in proven: todo.append(o)
        uniq = {}
        for o in todo: uniq.setdefault(o.key(), o)
        with ThreadPoolExecutor(JOBS) as ex:
            rs = list(ex.map(lambda o: solve(o, plan, axskip, want_core=core), uniq.values()))
        res = dict(zip(uniq.keys(), rs))
        for k, r in res.items():
            if r.status == 'unsat': proven[k] = r
        return res
    while True:
        rounds += 1
        explore(w, task)
        cand = [o for x in w.obls if x.cand for o in split_goal(x)]
        # cores let results survive the dropping of candidates
        plan_c = PLAN_FAST if keep is None else plan
        open_ = []
        for o in cand:
            if o.key() in refuted: continue
            r = proven.get(o.key())
            if r is None:
                r2 = core_hit(w, o)
                if r2: proven[o.key()] = r2
                else: open_.append(o)
        res = run_batch(open_, plan_c, core=True)
        for o in open_:
            r = res[o.key()]
            if r.status == 'unsat' and r.core is not None: w_cores(w).setdefault(o.goal, []).append((frozenset(r.core), r))
        for o in open_:
            if o.key() not in proven: refuted[o.key()] = res[o.key()]
        bad = {o.cand for o in cand if o.key() not in proven}
        if log: log('  round %d: %d paths, %d obligations, %d candidate VCs, %d failed' % (rounds, w.npaths, len(w.obls), len(cand), len(bad)))
        if not bad: break
        if DEBUG_CAND:
            for o in cand:
                if o.key() not in proven and DEBUG_CAND in o.cand[1]:
                    print('   CAND', o.cand[1], o.name, o.line, res[o.key()].status if o.key() in res else '')
                    if DEBUG_FULL:
                        for a in o.assume: print('        ', show(a)[:500])
                    print('      |-', show(o.goal)[:600])
        for key, lab in bad: w.loops[key].dropped.add(lab)
        if budget and time.time() - t0 > budget: break
    main = [o for x in w.obls if not x.cand for o in split_goal(x)]
    res = run_batch(main, plan, core=record)
    if keep is not None:
        left = [o for o in main if o.key() not in proven]
        if 0 < len(left) <= 4: res.update(run_batch(left, PLAN_MAIN))
    out = []
    for o in main:
        r = proven.get(o.key()) or res.get(o.key())
        out.append((o, r))
    # every loop has a measure that decreases
    if c.terminates:
        for k, i in w.loops.items():
            v = sorted(i.variants - i.dropped); o = Obl('termination of loop ' + key_str(k).rsplit('> ')[-1], (), FALSE, 'term', 0, '')
            out.append((o, Result('unsat', 'variant', 0.0) if v else Result('unknown', '', 0.0)))
    R = FunctionResult()
    R.key = c.key; R.alias = alias; R.obls = out; R.candvcs = cand; R.rounds = rounds; R.time = time.time() - t0
    R.cand_proved = sum(1 for o in cand if o.key() in proven); R.exits = set(w.exits); R.inlined = set(w.inlined); R.called = set(w.called); R.models = set(w.models)
    R.proven = proven; R.paths = w.npaths
    R.loops = {key_str(k): sorted((i.labels | set(i.variants)) - i.dropped) for k, i in w.loops.items()}
    R.world = w
    R.body = body
    R.unreachable = []
    # vacuity: no exit and no loop body may be reachable only under contradictory assumptions
    for tag, pcs in w.reach.items():
        uniq = sorted(set(pcs), key=len)[:6]
        if all(solve(Obl('reach', pc, FALSE, 'reach', 0, ''), [('z3-e', 2)], axskip).status == 'unsat' for pc in uniq) and len(set(pcs)) <= 6: R.unreachable.append(tag)
    R.reached = sorted(w.reach)
    R.unvisited = sorted(stmt_lines(body) - w.lines)
    R.needed = None
    if record and all(r and r.status == 'unsat' for _, r in out): R.needed = minimise(w, main, cand, proven)
    return R

def w_cores(w):
    if not hasattr(w, 'cores'): w.cores = {}
    return w.cores
def core_hit(w, o):
    s = None
    for core, r in w_cores(w).get(o.goal, []):
        if s is None: s = set(o.assume)
        if core <= s: return r
    return None

def minimise(w, main, cand, proven):
    """labels of the loop invariants the proofs actually use"""
    need = set(); todo = list(main)
    seen = set()
    bycand = {}
    for o in cand: bycand.setdefault(o.cand, []).append(o)
    while todo:
        o = todo.pop()
        r = proven.get(o.key())
        core = set(o.assume) if (r is None or r.core is None) else r.core
        if o.goal is TRUE: core = set()
        # a goal that is itself an assumption
        for t in core:
            for cl in w.candterms.get(t, ()):
                if cl not in need:
                    need.add(cl); todo += bycand.get(cl, [])
        # goals taken from the assumptions by syntactic identity
    out = {}
    for key, lab in need: out.setdefault(key_str(key), set()).add(lab)
    for k in w.loops: out.setdefault(key_str(k), set())
    return {k: sorted(v) for k, v in out.items()}

def stmt_lines(body):
    """line numbers of the statements of a function body"""
    out = set()
    def st(x):
        if not isinstance(x, list) or not x: return
        if isinstance(x[0], list):
            for y in x: st(y)
            return
        k = x[0]
        if len(x) < 2 or not isinstance(x[1], int): return
        if k == 'block':
            for y in x[2]: st(y)
        elif k == 'if': out.add(x[1]); st(x[5] if len(x) > 5 else None); st(x[6] if len(x) > 6 else None)
        elif k in ('while',): st(x[4])
        elif k == 'do': st(x[3])
        elif k == 'for': out.add(x[1]); st(x[6])
        elif k == 'forrange': st(x[9])
        else: out.add(x[1])
    st(body.body)
    return out
