"""calls.py UNIT FUNC-RE: list the callees of matching functions"""
import sys, re, tempfile, shutil
sys.path.insert(0, '/verif')
from hv import ir
w = tempfile.mkdtemp()
m = ir.compile_tu(sys.argv[1], w)
rx = re.compile(sys.argv[2])
ir.demangle_all([n[1:] for n in m.funcs])
for n, f in m.funcs.items():
    d = ir.demangle(n[1:])
    if rx.search(d):
        f.parse()
        print('==', d)
        if '-i' in sys.argv:
            for b, l in f.blocks.items():
                print(b + ':')
                for i in l: print('   ', i.text[:230])
        else:
            for b, l in f.blocks.items():
                for i in l:
                    if i.op in ('call', 'invoke'):
                        c = i.a['callee']
                        print('   ', ir.demangle(c[1][1:])[:200] if c[0] == 'glob' else c, '' if not(c[0]=='glob' and c[1] in m.funcs) else '[body]')
shutil.rmtree(w)
