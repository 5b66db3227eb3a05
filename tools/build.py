"""Builds a harness against /repo's current sources, with a content-addressed object cache."""
import hashlib, os, subprocess, sys, concurrent.futures as cf
REPO = os.environ.get('VERIF_REPO', '/repo'); VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CACHE = os.path.join(VERIF, '.cache')
CXX = 'g++'
FLAGS = ['-std=gnu++17', '-O1', '-g1', '-w', '-fsanitize=address,undefined', '-fno-sanitize=vptr', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer',
         '-D_GLIBCXX_ASSERTIONS', '-D_GLIBCXX_SANITIZE_VECTOR=1', '-DRINGING_HAS_GDOME_UNUSED']
def sh(cmd, **kw): return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
def xml_flags():
    r = sh(['sh', '-c', 'pkg-config --cflags libxml-2.0 gdome2 glib-2.0 2>/dev/null || gdome-config --cflags 2>/dev/null; true'])
    return r.stdout.split()
def compile_one(src, extra):
    src = src if os.path.isabs(src) else os.path.join(REPO, src)
    inc = ['-I' + os.path.join(VERIF, 'config'), '-I' + REPO, '-I' + os.path.join(VERIF, 'harness')] + extra
    pre = subprocess.run([CXX, '-E', '-P'] + FLAGS + inc + [src], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if pre.returncode: return None, pre.stderr.decode(errors='replace')[-3000:]
    # line numbers matter for messages only in the harness itself
    h = hashlib.sha256(pre.stdout + ' '.join(FLAGS).encode() + (open(src, 'rb').read() if src.startswith(VERIF) else b'')).hexdigest()[:24]
    os.makedirs(CACHE, exist_ok=True)
    o = os.path.join(CACHE, 'o-' + h + '.o')
    if not os.path.exists(o):
        t = o + '.%d.tmp' % os.getpid()
        r = sh([CXX, '-c'] + FLAGS + inc + [src, '-o', t])
        if r.returncode: return None, r.stdout[-3000:]
        os.rename(t, o)
    return o, ''
def gen_gsiril():
    """init.dat, as the Makefile makes it"""
    d = os.path.join(REPO, 'apps/gsiril')
    r = subprocess.run(['awk', '-f', os.path.join(d, 'escape.awk'), os.path.join(d, 'init/gsiril.init')], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    h = hashlib.sha256(r.stdout).hexdigest()[:24]; g = os.path.join(CACHE, 'gen-' + h)
    os.makedirs(g, exist_ok=True)
    t = os.path.join(g, 'init.dat')
    if not os.path.exists(t):
        open(t + '.%d' % os.getpid(), 'wb').write(r.stdout); os.rename(t + '.%d' % os.getpid(), t)
    return ['-I' + g]
GEN = {'gsiril': gen_gsiril}
def build(name, sources, extra=(), libs=()):
    extra = list(extra) + (GEN[name]() if name in GEN else [])
    """returns (path of executable or None, message)"""
    with cf.ThreadPoolExecutor(8) as ex:
        res = list(ex.map(lambda s: compile_one(s, list(extra)), sources))
    for s, (o, m) in zip(sources, res):
        if o is None: return None, '%s: %s' % (s, m)
    h = hashlib.sha256(' '.join(o for o, _ in res).encode() + ' '.join(libs).encode()).hexdigest()[:24]
    exe = os.path.join(CACHE, 'x-%s-%s' % (name, h))
    if not os.path.exists(exe):
        r = sh([CXX] + FLAGS + [o for o, _ in res] + ['-o', exe + '.%d' % os.getpid()] + list(libs))
        if r.returncode: return None, r.stdout[-3000:]
        os.rename(exe + '.%d' % os.getpid(), exe)
    return exe, ''
if __name__ == '__main__':
    sys.path.insert(0, VERIF)
    import spec.props as PR
    g = PR.HARNESS[sys.argv[1]]
    exe, m = build(sys.argv[1], g['sources'], g.get('extra', ()), g.get('libs', ()))
    print(exe, m)
    if exe and len(sys.argv) > 2: sys.exit(subprocess.call([exe] + sys.argv[2:]))
