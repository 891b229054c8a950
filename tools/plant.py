#!/usr/bin/env python3
"""plant.py DEF.py: make seeded/<name>/ from a definition: dict PLANTS = {name: dict(property, edits=[(file, old, new)], needs, breaks, demo, flags)}
and try the demonstration on a built scratch copy with and without the change."""
import sys, os, subprocess, shutil, json, tempfile, importlib.util
V = '/verif'
sp = importlib.util.spec_from_file_location('d', sys.argv[1]); m = importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
only = sys.argv[2:]
SH = '''#!/bin/sh
# exit 0 when the property holds for this input
d=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d) || exit 2
trap 'rm -rf "$w"' EXIT
g++ -std=c++11 -g -O1 -w -fno-access-control %s -I include -I _build/include "$d/demo.cc" %s -lpthread -lrt -ldl -o "$w/demo" || exit 2
cd "$w" && timeout 120 ./demo
'''
def run(name, p):
    d = os.path.join(V, 'seeded', name)
    os.makedirs(d, exist_ok=True)
    open(d + '/demo.cc', 'w').write(p['demo'])
    open(d + '/demo.sh', 'w').write(SH % (p.get('flags', ''), p.get('srcs', '_build/src/.libs/libhogl.a')))
    os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': p['property'], 'needs': p['needs'], 'what_it_breaks': p['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    t = tempfile.mkdtemp(prefix='plant.')
    try:
        r = t + '/repo'
        subprocess.check_call(['cp', '-a', '/repo', r])
        for f, o, n in p['edits']:
            s = open(r + '/' + f).read()
            assert s.count(o) >= 1, (name, f, o)
            open(r + '/' + f, 'w').write(s.replace(o, n, 1))
        df = subprocess.run(['git', '-C', r, 'diff'], capture_output=True, text=True).stdout
        open(d + '/patch.diff', 'w').write(df)
        b = subprocess.run('make -C _build -j3 -o ../version.mk src/libhogl.la', shell=True, cwd=r, capture_output=True, text=True)
        ok = subprocess.run([d + '/demo.sh'], cwd='/repo', capture_output=True, text=True)
        bad = subprocess.run([d + '/demo.sh'], cwd=r, capture_output=True, text=True)
        print(name, 'build', b.returncode, 'clean', ok.returncode, 'patched', bad.returncode, '' if ok.returncode == 0 and bad.returncode not in (0, 2) else '<<<<<<<<')
        if b.returncode: print(b.stdout[-800:], b.stderr[-1500:])
        if ok.returncode: print(ok.stdout[-600:], ok.stderr[-1500:])
        else: print('   ', (bad.stdout + bad.stderr)[-200:].replace('\n', ' | '))
    finally:
        shutil.rmtree(t)
from concurrent.futures import ThreadPoolExecutor
with ThreadPoolExecutor(3) as ex:
    for f in [ex.submit(run, n, p) for n, p in m.PLANTS.items() if not only or n in only]:
        f.result()
