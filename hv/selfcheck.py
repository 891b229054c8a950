"""setup: the verifier must accept a correct function and refuse a wrong one, on fresh IR of a trusted example"""
import sys, os, tempfile, shutil, types
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from hv import ir, run, spec
from hv.sym import *
import z3
SRC = r'''
extern "C" unsigned good(const unsigned *a, unsigned n) { unsigned m = 0; for (unsigned i = 0; i < n; i++) if (a[i] > m) m = a[i]; return m; }
extern "C" unsigned bad(const unsigned *a, unsigned n) { unsigned m = 0; for (unsigned i = 0; i <= n; i++) if (a[i] > m) m = a[i]; return m; }
'''
w = tempfile.mkdtemp()
try:
    open(w + '/t.cc', 'w').write(SRC)
    m = ir.compile_tu(w + '/t.cc', w + '/ir')
    res = {}
    for f in ('good', 'bad'):
        P = run.PropCtx(60)
        v = spec.V(P, f, [m])
        n = v.sym('n', 32)
        v.assume(z3.ULT(n, 1 << 20))
        p = v.buf('a', simp(z3.ZeroExt(32, n) * 4))
        k = v.sym('k', 32)
        v.assume(z3.ULT(k, n))
        x = v.ex.peek(v.st, p.plus(simp(z3.ZeroExt(32, k) * 4)), 4)
        def inv2(ex, st, lv):
            vals = [(kk, c) for kk, c in lv.ints(32)]
            return [('max so far', z3.And(z3.ULE(bv(vals[IX][1], 32), n), z3.Implies(z3.ULT(k, bv(vals[IX][1], 32)), z3.UGE(bv(vals[1 - IX][1], 32), x))))]
        ok = False
        for IX in (0, 1):
            P2 = run.PropCtx(60)
            v2 = spec.V(P2, f, [m]); v2.ex.known_regions = v.ex.known_regions
            v2.st = v.st.clone(); v2.st.abstract = False
            v2.loop('^' + f, spec.LoopSpec(inv=inv2))
            for st, ret in v2.call('@' + f, [p, n]):
                v2.ensure(st, 'upper bound', z3.UGE(bv(ret, 32), x))
            if all(o.status == 'proved' for o in v2.ex.obls) and v2.ex.obls and not v2.ex.undecided:
                ok = True
        res[f] = ok
    print(res)
    if res != {'good': True, 'bad': False}:
        sys.exit('self check failed')
finally:
    shutil.rmtree(w)
