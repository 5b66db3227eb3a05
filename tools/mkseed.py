"""mkseed(id, prop, file, old, new, needs, breaks, demo_cpp): writes /verif/seeded/<id>/ (edits: list of (file, old, new))."""
import json, os, subprocess, shutil, tempfile
V = '/verif/seeded'
RUN = '''#!/bin/bash
# run with cwd /repo after the build
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d) || exit 2; trap 'rm -rf "$T"' EXIT
g++ -std=gnu++17 -O1 -w %s-I. -I_build "$D/demo.cpp" -o "$T/demo" %s_build/ringing/.libs/libringing.a _build/ringing/.libs/libringingcore.a %s|| exit 2
cd "$T" && timeout 100 ./demo
'''
def mkseed(id, prop, edits, needs, breaks, demo, flags='', extra='', libs='', sh=None):
    d = os.path.join(V, id); os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp(dir='/tmp'); 
    for f, old, new in edits:
        s = open('/repo/' + f).read(); assert s.count(old) == 1, (id, f, s.count(old), old)
        p = os.path.join(t, 'b', f); os.makedirs(os.path.dirname(p), exist_ok=True)
        a = os.path.join(t, 'a', f); os.makedirs(os.path.dirname(a), exist_ok=True)
        if not os.path.exists(a): open(a, 'w').write(s); cur = s
        else: cur = open(p).read()
        open(p, 'w').write(cur.replace(old, new))
    out = subprocess.run(['diff', '-ru', 'a', 'b'], cwd=t, stdout=subprocess.PIPE, text=True).stdout
    out = '\n'.join(l for l in out.split('\n') if not l.startswith('diff -ru'))
    import re
    out = re.sub(r'^(--- a/\S+|\+\+\+ b/\S+)\t.*$', r'\1', out, flags=re.M)
    open(d + '/patch.diff', 'w').write(out); shutil.rmtree(t)
    if sh is None: open(d + '/demo.cpp', 'w').write(demo); open(d + '/demo.sh', 'w').write(RUN % (flags, extra, libs))
    else: open(d + '/demo.sh', 'w').write(sh)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + '/meta.json', 'w'), indent=1)
