"""check.py PROPERTY [quick|thorough]: decide one property on /repo's current tree.

1. the bounded harness (sanitizers on) is built from /repo's sources and run;
2. the sources are extracted from /repo (clang AST) and every function under a contract of this
   property is verified against its contract: every obligation must be discharged;
3. a failing input found by 1 is a VIOLATION; an undischarged obligation without one is a
   VIOLATION ... no-failing-input-found.
"""
import json, multiprocessing as mp, os, re, subprocess, sys, threading, time, traceback
T0 = time.time()
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF); sys.path.insert(0, os.path.join(VERIF, 'tools'))
import build
import spec.props as PR

PROP = sys.argv[1]
TIER = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
DEADLINE = 760 if TIER == 'quick' else 3 * 3600
META = PR.PROPS[PROP]
def left(): return DEADLINE - (time.time() - T0)
def say(*a): print(*a, flush=True)

# ---------------------------------------------------------------- bounded harness
def harness(tier, limit):
    """[{name, sections, fails, unfinished, error}] for every harness of the property"""
    out = []
    for h in META.get('harness', []):
        g = PR.HARNESS[h]; r = dict(harness=h, fails=[], sections=[], unfinished=[], samples=[], error=None); out.append(r)
        exe, m = build.build(h, g['sources'], g.get('extra', ()), g.get('libs', ()))
        if not exe: r['error'] = 'does not build against this tree: ' + m[:1500]; continue
        cmd = [exe, PROP, tier, str(int(limit))]
        env = dict(os.environ); env['VERIF_SEED'] = str(SEED); env.update(g.get('env', {}))
        try: p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, timeout=limit + 60, cwd='/tmp')
        except subprocess.TimeoutExpired: r['unfinished'].append('whole harness'); continue
        txt = p.stdout.decode(errors='replace'); r['cmd'] = ' '.join(cmd); r['out'] = txt[-20000:]
        for l in txt.splitlines():
            if l.startswith('SECTION '):
                m = re.match(r'SECTION (\S+) (.*) checks=(\d+) inputs=(\d+) fails=(\d+)', l)
                if m: r['sections'].append(dict(name=m.group(2), checks=int(m.group(3)), inputs=int(m.group(4)), fails=int(m.group(5))))
            elif l.startswith('SAMPLE '): r['samples'].append(l[7:])
            elif l.startswith('FAIL '): r['fails'].append(l[5:])
            elif l.startswith('UNFINISHED '): r['unfinished'].append(l[11:])
    return out

# ---------------------------------------------------------------- contracts
def owner(c): return c.prop if isinstance(c.prop, (tuple, list)) else (c.prop,)
def verify_one(args):
    key, alias, hints = args
    from cppv import prove, contract as C
    from cppv.terms import show, smt2, mk_not
    from cppv.exec import Unsupported
    c = C.CONTRACTS[key]; body = BODIES[key]
    t0 = time.time(); prove.STATS.update(time=0.0, by={}, queries=0)
    r = dict(key=key, alias=alias, obligations=0, discharged=0, failed=[], unsupported=None, invariant_vcs=0)
    def go(keep):
        return prove.verify(PROG, c, body, alias=alias, keep=keep, axskip=(), budget=None, **({'plan': prove.PLAN_HINT} if keep is not None else {}))
    try:
        R = None
        if hints is not None:
            try: R = go({k: set(v) for k, v in hints.items()})
            except Unsupported: R = None
            if any(not x or x.status != 'unsat' for _, x in R.obls): R = None
        if R is None: R = go(None)
    except Unsupported as e:
        r['unsupported'] = str(e); r['time'] = time.time() - t0; return r
    except Exception as e:
        r['unsupported'] = 'internal error: %s %s' % (type(e).__name__, e); r['trace'] = traceback.format_exc()[-1500:]; r['time'] = time.time() - t0; return r
    bad = [(o, x) for o, x in R.obls if not x or x.status != 'unsat']
    r.update(obligations=len(R.obls), discharged=len(R.obls) - len(bad), invariant_vcs=R.cand_proved, exits=sorted(R.exits), paths=R.paths,
             inlined=sorted(C.short(k) for k in R.inlined), called=sorted(C.short(k) for k in R.called), models=sorted(R.models),
             loops=R.loops, solver_time=prove.STATS['time'], by=dict(prove.STATS['by']), queries=prove.STATS['queries'], time=time.time() - t0,
             unreachable=R.unreachable, reached=R.reached, lines_not_reached=R.unvisited, kinds={})
    if R.reached and len(R.unreachable) == len(R.reached): r['unsupported'] = 'vacuous: every exit is provably unreachable'; return r
    if TIER == 'record': pass
    for o, x in R.obls: r['kinds'][o.kind] = r['kinds'].get(o.kind, 0) + 1
    for o, x in bad[:6]:
        r['failed'].append(dict(name=o.name, line=o.line, function=key, answer=(x.status if x else 'none'), goal=show(o.goal)[:3000], output=(x.out[:2000] if x else ''),
                                assumptions=[show(a)[:600] for a in o.assume][-60:]))
    r['nfailed'] = len(bad)
    if c.prop == 'x': pass
    return r

def contracts_of(prop, closure=False):
    from cppv import contract as C
    return [(k, c) for k, c in C.CONTRACTS.items() if prop in owner(c)]

def load(res):
    global PROG, BODIES
    try:
        import spec.all
        from cppv.contract import short
        from cppv import contract as C
        keys = [k for k, c in C.CONTRACTS.items() if PROP in owner(c)] if META.get('contracts', True) else []
        if not keys: PROG = None; BODIES = {}; res['ok'] = True; return
        PROG = spec.all.program(META.get('tus'))
        BODIES = {short(k): b for k, b in PROG.bodies.items()}
        res['ok'] = True
    except BaseException as e:
        res['ok'] = False; res['err'] = '%s: %s' % (type(e).__name__, str(e)[-1500:])

def known():
    out = []
    p = os.path.join(VERIF, 'known_findings.jsonl')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l and not l.startswith('#') and not l.startswith('fixed:'):
                d = json.loads(l)
                if d.get('property') == PROP: out.append(d)
    return out

def main():
    res = {}
    hres = {}
    def hrun(): hres['r'] = harness('thorough' if TIER == 'thorough' else 'quick', META.get('limit', 240) if TIER == 'quick' else 3000)
    load(res) if META.get('serial') else None
    th = threading.Thread(target=hrun); th.start()
    if not META.get('serial'): load(res)
    results = []; missing = []; trusted = []
    if res.get('ok'):
        from cppv import contract as C, prove
        hints = {}
        hp = os.path.join(VERIF, 'spec', 'hints.json')
        if os.path.exists(hp): hints = json.load(open(hp))
        tasks = []
        for k, c in contracts_of(PROP):
            if c.trusted: trusted.append('%s: %s' % (k, c.trusted)); continue
            if k not in BODIES: missing.append(k); continue
            for al in [None] + c.alias: tasks.append((k, al, hints.get(k + ('' if al is None else '@%d' % al))))
        cost = {}
        cp = os.path.join(VERIF, 'spec', 'cost.json')
        if os.path.exists(cp): cost = json.load(open(cp))
        tasks.sort(key=lambda t: -cost.get(t[0], 5))
        th.join()
        found = any(h['fails'] for h in hres.get('r', []))     # already decided by a failing input: name the obligations, but do not spend long on them
        stop = time.time() + (150 if found and TIER == 'quick' else 10 ** 6)
        prove.JOBS = 3
        if tasks:
            with mp.get_context('fork').Pool(min(4, len(tasks)), maxtasksperchild=1) as pool:
                rs = [(t, pool.apply_async(verify_one, (t,))) for t in tasks]
                for t, a in rs:
                    try: results.append(a.get(max(1, min(left() - 60, stop - time.time()))))
                    except mp.TimeoutError: results.append(dict(key=t[0], alias=t[1], obligations=0, discharged=0, failed=[], unsupported='not finished within the time allowed', invariant_vcs=0, time=0))
                    except Exception as e: results.append(dict(key=t[0], alias=t[1], obligations=0, discharged=0, failed=[], unsupported='worker: %r' % e, invariant_vcs=0, time=0))
                pool.terminate()
            # a second look at what failed, alone and with more time
            again = [r for r in results if r.get('nfailed')]
            if again and left() > 150 and not found:
                prove.JOBS = 8
                prove.PLAN_MAIN[:] = [('z3-e', 8), ('cvc5', 20), ('z3-e2', 30), ('z3-m', 10)]
                for r in again[:2]:
                    if left() < 150: break
                    with mp.get_context('fork').Pool(1) as pool:
                        try:
                            r2 = pool.apply_async(verify_one, ((r['key'], r['alias'], None),)).get(max(1, min(240, left() - 100)))
                            if not r2.get('nfailed') and not r2['unsupported']: results[results.index(r)] = r2
                        except Exception: pass
                        pool.terminate()
    th.join()
    hr = hres.get('r', [])
    bad = [r for r in results if r.get('nfailed')]
    kn = known()
    fails = [(h, f) for h in hr for f in h['fails']]
    def is_known(f): return [k for k in kn if k.get('match') and re.search(k['match'], f)]
    deep = None
    if bad and not fails and TIER == 'quick' and left() > 60:
        say('# %d contract(s) not discharged; searching for a failing input' % len(bad))
        deep = harness('thorough', min(left() - 40, 400)); fails = [(h, f) for h in deep for f in h['fails']]
    # ---- report
    viol = 0
    os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
    def replay(name, d):
        p = os.path.join(VERIF, 'replays', '%s-%s.json' % (PROP, name))
        json.dump(d, open(p, 'w'), indent=1); return p
    newfails = []
    shown = set()
    for h, f in fails:
        ks = is_known(f)
        if ks:
            continue
        newfails.append((h, f))
    for k in kn: say('KNOWN-FINDING: property=%s %s' % (PROP, k['what']))
    obl = sum(r['obligations'] for r in results); dis = sum(r['discharged'] for r in results)
    uns = [r for r in results if r['unsupported']]
    for r in results:
        say('%-60s %s' % (r['key'] + ('' if r['alias'] is None else ' [argument %d aliases *this]' % r['alias']), 'NOT VERIFIED (%s)' % r['unsupported'] if r['unsupported'] else '%d/%d obligations, %d invariant VCs, %.1fs' % (r['discharged'], r['obligations'], r['invariant_vcs'], r['time'])))
        for f in r['failed']: say('    undischarged: %s at line %s (%s)' % (f['name'], f['line'], f['answer']))
    if not res.get('ok'): say('# extraction failed: ' + res.get('err', ''))
    for k in missing: say('# no body for contract ' + k)
    for h in (hr or []) + (deep or []):
        for s in h['sections']: say('# bounded %s/%s: %d inputs, %d checks, %d failures' % (h['harness'], s['name'], s['inputs'], s['checks'], s['fails']))
        if h['error']: say('# bounded harness %s not available: %s' % (h['harness'], h['error'][:800]))
        for u in h['unfinished']: say('# bounded section not finished: ' + u)
    if newfails:
        h, f = newfails[0]; viol = len(newfails)
        p = replay('input', dict(property=PROP, kind='failing input, run against the real code', harness=h['harness'], command=h.get('cmd'), rebuild='python3 /verif/tools/build.py %s %s %s 600' % (h['harness'], PROP, TIER),
            failures=[x for _, x in newfails][:20], undischarged=[x for r in bad for x in r['failed']][:10], output=h.get('out')))
        for _, x in newfails[:5]: say('FAILING: ' + x[:700])
        say('VIOLATION property=%s replay=%s' % (PROP, p))
    elif bad:
        viol = sum(r['nfailed'] for r in bad)
        p = replay('obligation', dict(property=PROP, kind='undischarged obligations', failed=[x for r in bad for x in r['failed']][:20]))
        say('VIOLATION property=%s replay=%s no-failing-input-found' % (PROP, p))
    # ---- evidence
    from collections import Counter
    by = Counter(); models = set(); called = set(); inl = set()
    for r in results:
        by.update(r.get('by', {})); models |= set(r.get('models', ())); called |= set(r.get('called', ())); inl |= set(r.get('inlined', ()))
    own = {r['key'] for r in results}
    secs = [dict(harness=h['harness'], **s) for h in hr for s in h['sections']]
    cov = dict(obligations=obl, discharged=dis, checker_cmd='/verif/check %s %s' % (PROP, TIER),
        trusted_base=PR.TRUSTED_BASE + trusted,
        invariant_verification_conditions=sum(r['invariant_vcs'] for r in results),
        functions_under_contract=[dict(function=r['key'], alias_of_this=r['alias'], obligations=r['obligations'], discharged=r['discharged'], invariant_vcs=r['invariant_vcs'], seconds=round(r.get('time', 0), 2), solver_seconds=round(r.get('solver_time', 0), 2), solvers=r.get('by'), inlined=r.get('inlined'), not_verified=r['unsupported'], exits=r.get('exits'), reachability_checked=r.get('reached'), provably_unreachable=r.get('unreachable'), lines_not_reached=r.get('lines_not_reached'), invariants=r.get('loops')) for r in results],
        back_ends=dict(by), solver_seconds=round(sum(r.get('solver_time', 0) for r in results), 1),
        contracts_relied_on_from_other_properties=sorted(called - own), library_models_used=sorted(models),
        functions_not_verified=[dict(function=r['key'], reason=r['unsupported']) for r in uns] + [dict(function=k, reason='no definition found') for k in missing] + ([dict(function='*', reason=res.get('err'))] if not res.get('ok') else []),
        bounded_not_proved=dict(what='executions of the real code under ASan/UBSan against an independent reference; never counted as proved', sections=secs, bounds=META.get('bounds', ''),
            unfinished=[u for h in hr for u in h['unfinished']], unavailable=[h['error'] for h in hr if h['error']]),
        evaluations=sum(s['checks'] for s in secs), distinct_nontrivial=sum(s['inputs'] for s in secs),
        rule='an input is one value of the enumerated or generated domain of a section (see bounds); every one is checked against the reference',
        samples=[x for h in hr for x in h['samples']][:12] or [dict(section=s['name'], inputs=s['inputs']) for s in secs[:5]],
        explanation=META.get('note', ''))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(dict(property=PROP, tier='thorough' if TIER == 'thorough' else 'quick', seed=SEED, level=META.get('level', 'proof'), coverage=cov, assumptions=PR.ASSUMPTIONS + META.get('assumptions', []), wall_s=round(time.time() - T0, 1), violations=viol),
        open(os.path.join(VERIF, 'evidence', PROP + '.json'), 'w'), indent=1)
    say('%s: %d/%d obligations discharged, %d functions, bounded checks %d, %.0fs' % (PROP, dis, obl, len(results), cov['evaluations'], time.time() - T0))
    return 1 if viol else 0
if __name__ == '__main__':
    try: rc = main()
    except SystemExit: raise
    except BaseException:
        traceback.print_exc(); rc = 0
    sys.stdout.flush(); os._exit(rc)
