"""Loads the extractor's output: types, functions with bodies, records, globals."""
import hashlib, json, os, re, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
CACHE = os.path.join(VERIF, '.cache')
CLANG_RES = '/usr/lib/llvm-18/lib/clang/18'

def norm(s):
    """std::vector<ringing::bell, std::allocator<ringing::bell>> -> vector<bell>-like short names"""
    s = s.replace('std::basic_string<char, std::char_traits<char>, std::allocator<char>>', 'std::string')
    s = s.replace('std::basic_ostream<char, std::char_traits<char>>', 'std::ostream')
    s = s.replace('std::basic_istream<char, std::char_traits<char>>', 'std::istream')
    s = s.replace('std::basic_ios<char, std::char_traits<char>>', 'std::ios')
    while True:
        m = re.search(r', std::(allocator|less|char_traits)<', s)
        if not m: break
        i = m.end(); d = 1
        while d:
            if s[i] == '<': d += 1
            elif s[i] == '>': d -= 1
            i += 1
        s = s[:m.start()] + s[i:]
    return s

class Type:
    __slots__ = ('s', 'k', 'const', 'd', 'tu', '_to', '_targs', 'w', 'sg')
    def __init__(self, tu, d):
        self.tu = tu; self.d = d
        self.s = norm(d['s']); self.const = bool(d.get('c')); self.k = d.get('k', 'other')
        if self.const and self.s.startswith('const '): self.s = self.s[6:]
        elif self.const and self.s.endswith(' const'): self.s = self.s[:-6]
        self.w = d.get('w'); self.sg = d.get('sg'); self._to = None; self._targs = None
        if d.get('bool'): self.k = 'bool'
    @property
    def to(self):
        return self.tu.type(self.d['to'])
    @property
    def targs(self):
        return [self.tu.type(t) if isinstance(t, int) else t for t in self.d.get('targs', [])]
    @property
    def tmpl(self):
        return self.d.get('tmpl')
    @property
    def name(self): return norm(self.d.get('name', ''))
    @property
    def rec(self): return self.tu.rec(self.d['rec']) if 'rec' in self.d else None
    def __repr__(self): return ('const ' if self.const else '') + self.s
    @property
    def isref(self): return self.k in ('lref', 'rref')
    def strip(self):
        return self.to if self.isref else self
    @property
    def isint(self): return self.k in ('int', 'enum')

class Rec:
    def __init__(self, tu, d):
        self.tu = tu; self.d = d; self.name = norm(d['name']); self.repo = bool(d['repo'])
    @property
    def bases(self): return [self.tu.type(t) for t in self.d.get('bases', [])]
    @property
    def fields(self): return [(f['n'], self.tu.type(f['t']), f.get('i')) for f in self.d.get('fields', [])]
    @property
    def methods(self): return [self.tu.fn(i) for i in self.d.get('methods', [])]

class Fn:
    def __init__(self, tu, d):
        self.tu = tu; self.d = d; self.key = norm(d['key']); self.n = d['n']; self.q = norm(d['q'])
        self.gq = d['gq'].replace('__cxx11::', '')
    @property
    def cls(self): return self.tu.type(self.d['cls']) if 'cls' in self.d else None
    @property
    def ret(self): return self.tu.type(self.d['ret'])
    @property
    def ps(self): return [self.tu.type(t) for t in self.d['ps']]
    @property
    def targs(self): return [self.tu.type(t) if isinstance(t, int) else t for t in self.d.get('targs', [])]
    @property
    def static(self): return bool(self.d.get('static'))
    @property
    def const(self): return bool(self.d.get('const'))
    @property
    def repo(self): return bool(self.d['repo'])
    def get(self, k): return self.d.get(k)
    def __repr__(self): return 'Fn(%s)' % self.key

class Var:
    def __init__(self, tu, i, d):
        self.tu = tu; self.id = i; self.d = d; self.n = d['n']; self.glob = norm(d['global']) if 'global' in d else None
    @property
    def t(self): return self.tu.type(self.d['t'])

class Body:
    def __init__(self, tu, d):
        self.tu = tu; self.d = d; self.fn = tu.fn(d['fn']); self.params = [tu.var(i) for i in d['params']]
        self.loc = d['loc']; self.endline = d['endline']; self.inits = d.get('inits'); self.body = d['body']
    @property
    def key(self): return self.fn.key

class TU:
    def __init__(self, d, file):
        self.d = d; self.file = file
        self._t = {}; self._f = {}; self._v = {}; self._r = {}
        self.bodies = {}
        for b in d['bodies']:
            B = Body(self, b); self.bodies[B.key] = B
    def type(self, i):
        t = self._t.get(i)
        if t is None: t = self._t[i] = Type(self, self.d['types'][i])
        return t
    def fn(self, i):
        t = self._f.get(i)
        if t is None: t = self._f[i] = Fn(self, self.d['fns'][i])
        return t
    def var(self, i):
        t = self._v.get(i)
        if t is None: t = self._v[i] = Var(self, i, self.d['vars'][i])
        return t
    def rec(self, i):
        t = self._r.get(i)
        if t is None: t = self._r[i] = Rec(self, self.d['recs'][i])
        return t

class ExtractError(Exception): pass

def extractor():
    """path of the extractor binary, building it if necessary"""
    src = os.path.join(VERIF, 'extract', 'extract.cpp')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
    os.makedirs(CACHE, exist_ok=True)
    exe = os.path.join(CACHE, 'extract-' + h)
    if not os.path.exists(exe):
        tmp = exe + '.%d' % os.getpid()
        subprocess.run(['clang++', '-std=c++17', '-O0', '-fno-rtti', '-I/usr/lib/llvm-18/include', '-w', src, '-o', tmp,
                        '/usr/lib/x86_64-linux-gnu/libclang-cpp.so.18.1', '-L/usr/lib/llvm-18/lib', '-lLLVM-18'], check=True)
        os.rename(tmp, exe)
    return exe

def cppflags():
    return ['-DHAVE_CONFIG_H', '-I' + os.path.join(VERIF, 'config'), '-I' + REPO]

def extract(files, jobs=8):
    exe = extractor()
    def one(f):
        cmd = [exe, '--root', REPO + '/'] + (['--root', VERIF + '/spec/inst/'] if f.startswith('/') else []) + [os.path.join(REPO, f), '--', '-std=gnu++17', '-w', '-resource-dir', CLANG_RES] + cppflags() + \
              (['-I' + os.path.join(REPO, 'apps', 'utils'), '-I' + os.path.dirname(os.path.join(REPO, f))] if f.startswith('apps/') else [])
        r = subprocess.run(cmd, capture_output=True)
        if not r.stdout: raise ExtractError('%s: %s' % (f, r.stderr.decode(errors='replace')[:2000]))
        d = json.loads(r.stdout)
        if d['err']: raise ExtractError('%s: %s' % (f, d['errs'][:2000]))
        return TU(d, f)
    with ThreadPoolExecutor(jobs) as ex: return list(ex.map(one, files))

class Program:
    def __init__(self, files):
        self.tus = extract(files)
        self.bodies = {}
        for t in self.tus:
            for k, b in t.bodies.items(): self.bodies.setdefault(k, b)
        self.globals = {}
        for t in self.tus:
            for i, v in enumerate(t.d['vars']):
                if 'global' in v:
                    V = t.var(i)
                    if V.glob not in self.globals or ('i' in v and 'i' not in self.globals[V.glob].d): self.globals[V.glob] = V
    def body(self, fn):
        b = fn.tu.bodies.get(fn.key)
        return b or self.bodies.get(fn.key)
