"""mutate.py [-j N] KEYSUBSTR...: mutation test of the contracts themselves.
Each operator or literal of a function's extracted body is changed in memory; a mutant whose obligations are
all discharged is a survivor: an equivalent change, a weak contract, or an unsoundness of the verifier."""
import sys, copy, multiprocessing as mp, os
sys.path.insert(0, '/verif')
from cppv import prove, contract as C
from cppv.contract import short
import spec.all
args = sys.argv[1:]; J = 4; only = None
while args and args[0].startswith('-'):
    if args[0] == '-j': J = int(args[1]); args = args[2:]
    elif args[0] == '-p': only = args[1]; args = args[2:]
TUS = os.environ.get('TUS')
P = spec.all.program(TUS.split(',') if TUS else None)
B = {short(k): b for k, b in P.bodies.items()}
prove.JOBS = 2
SWAP = {'<': ['<=', '>'], '<=': ['<'], '>': ['>=', '<'], '>=': ['>'], '==': ['!='], '!=': ['=='], '+': ['-'], '-': ['+'], '*': ['+'], '/': ['*'], '%': ['/'], '&&': ['||'], '||': ['&&'], '++': ['--'], '--': ['++'], '&': ['|']}
def sites(x, path=()):
    if not isinstance(x, list): return
    if x and isinstance(x[0], str):
        if x[0] in ('bin', 'un', 'opassign', 'compound') and len(x) > 4 and isinstance(x[4], str):
            for o in SWAP.get(x[4], []): yield path + (4,), o, x[3], x[4]
        if x[0] == 'int' and len(x) > 4:
            v = int(x[4])
            for o in (v + 1, v - 1): yield path + (4,), str(o), x[3], x[4]
        if x[0] == 'bool' and len(x) > 4: yield path + (4,), (not x[4]) if isinstance(x[4], bool) else str(1 - int(x[4])), x[3], x[4]
        if x[0] == 'block':
            for i, y in enumerate(x[2]):
                if isinstance(y, list) and y and y[0] not in ('decl', 'return'): yield path + (2, i), None, y[1], 'statement ' + y[0]
    for i, y in enumerate(x): yield from sites(y, path + (i,))
def mutated(b, path, new):
    m = copy.copy(b); body = copy.deepcopy(b.body); y = body
    for i in path[:-1]: y = y[i]
    if new is None: y[path[-1]] = ['block', y[path[-1]][1], []]
    else: y[path[-1]] = new
    m.body = body
    return m
def run(job):
    k, path, new, line, old = job
    c = C.CONTRACTS[k]
    try:
        R = prove.verify(P, c, mutated(B[k], path, new), plan=[('z3-e', 3), ('cvc5', 3)])
        bad = sum(1 for o, r in R.obls if not r or r.status != 'unsat')
        return job, 'killed' if bad else 'SURVIVED' + (' (unvisited %s)' % R.unvisited if R.unvisited else ''), ''
    except Exception as e: return job, 'unsupported', str(e)[:80]
jobs = []
for k, c in C.CONTRACTS.items():
    if c.trusted or k not in B: continue
    if args and not any(s in k for s in args): continue
    if only and c.prop != only: continue
    for p, new, line, old in sites(B[k].body): jobs.append((k, p, new, line, old))
print(len(jobs), 'mutants', flush=True)
n = {}
with mp.get_context('fork').Pool(J, maxtasksperchild=4) as pool:
    for (k, p, new, line, old), r, e in pool.imap_unordered(run, jobs):
        n[r.split()[0]] = n.get(r.split()[0], 0) + 1
        if r != 'killed': print(r, k, 'line', line, old, '->', new, e, flush=True)
print(n)
