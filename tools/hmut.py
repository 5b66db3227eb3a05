"""hmut.py PROP HARNESS N J FILE...: mutation test of a harness. Random single-token changes in scratch copies; prints the changes that the harness does not notice."""
import sys, os, re, random, subprocess, shutil, multiprocessing as mp
PROP, H, N, J = sys.argv[1], sys.argv[2], int(sys.argv[3]), int(sys.argv[4]); FILES = sys.argv[5:]
sys.path.insert(0, '/verif')
LIM = '150'
OPS = [(r'(?<![<>=!+\-*/&|])<(?![<=])', ['<=', '>']), (r'<=', ['<']), (r'(?<![->])>(?![>=])', ['>=']), (r'(?<!>)>=', ['>']), (r'==', ['!=']), (r'!=', ['==']), (r'&&', ['||']), (r'\|\|', ['&&']),
       (r'\+\+', ['--']), (r'(?<![+\w(,=]) ?\+ (?!=)', [' - ']), (r' - ', [' + ']), (r'\btrue\b', ['false']), (r'\bfalse\b', ['true']), (r'\b\d+\b', ['+1', '-1']), (r'!(?=[\w(])', ['']), (r'\bcontinue;', [';', 'break;']), (r'\bbreak;', [';']), (r'\+=', ['-=']),
       (r'(?<=[;{])\s*\n\s*[\w.>\-]+\([^;{}]*\);', ['\n;'])]
def sites(f):
    t = open('/repo/' + f).read(); out = []
    start = t.find('START_NAMESPACE'); start = t.find('\n', start) if start > 0 else 0
    code = re.sub(r'//[^\n]*|/\*.*?\*/|"(?:\\.|[^"\\\n])*"|\'(?:\\.|[^\'\\\n])*\'|^#[^\n]*', lambda m: ' ' * len(m.group()) if '\n' not in m.group() else re.sub(r'[^\n]', ' ', m.group()), t, flags=re.S | re.M)
    for rx, news in OPS:
        for m in re.finditer(rx, code):
            if m.start() < start: continue
            line = t[t.rfind('\n', 0, m.start()) + 1:t.find('\n', m.start())]
            if 'DEBUG' in t[m.start():m.end()] or 'assert' in line or 'template' in line or 'DEBUG' in line or 'include' in line or '_cast<' in line or 'vector<' in line or 'iterator' in line and rx[0] == '(' : continue
            for n in news:
                if n in ('+1', '-1'):
                    if n == '-1' and m.group() == '0': continue
                    n = str(int(m.group()) + int(n))
                out.append((f, m.start(), m.end(), m.group(), n))
    return out
def init(q):
    global D
    D = '/tmp/hm/%d' % q.get()
    if not os.path.exists(D): subprocess.run(['cp', '-a', '/repo', D])
    os.environ['VERIF_REPO'] = D
def run(s):
    f, a, b, old, new = s; t = open('/repo/' + f).read()
    for g in FILES: shutil.copy('/repo/' + g, D + '/' + g)
    open(D + '/' + f, 'w').write(t[:a] + new + t[b:])
    ln = t.count('\n', 0, a) + 1
    env = dict(os.environ, VERIF_REPO=D)
    p = subprocess.run(['python3', '/verif/tools/build.py', H, PROP, 'quick', LIM], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, timeout=400, text=True, errors='replace', cwd='/tmp')
    open(D + '/' + f, 'w').write(t)
    if re.search(r'^None ', p.stdout, re.M): return s, ln, 'nobuild'
    return s, ln, 'killed' if p.returncode else 'SURVIVED'
def safe(s):
    try: return run(s)
    except subprocess.TimeoutExpired: return s, 0, 'killed'
if __name__ == '__main__':
    S = [x for f in FILES for x in sites(f)]; random.seed(int(os.environ.get('SEED', '1'))); random.shuffle(S); print(len(S), 'sites', flush=True); S = S[:N]
    m = mp.Manager(); q = m.Queue(); n = {}
    for i in range(J): q.put(int(os.environ.get('BASE', '0')) + i)
    with mp.Pool(J, init, (q,)) as pool:
        for s, ln, r in pool.imap_unordered(safe, S):
            n[r] = n.get(r, 0) + 1
            if r == 'SURVIVED':
                t = open('/repo/' + s[0]).read().split('\n')
                print('%s:%d  %r -> %r   | %s' % (s[0], ln, s[3][:60], s[4], t[ln - 1].strip()[:110]), flush=True)
    print(n)
