from hv.spec import *
import z3
UNITS = {'ns': '$VERIF/units/ts.cc', 'tspec': '$VERIF/units/ts_timespec.cc'}
ASSUMPTIONS = ['the timespec storage format (HOGL_TIMESTAMP_USE_TIMESPEC_FORMAT) represents values below 2^32 seconds only; its contracts are stated on those']
TRUSTED = []
T = 'hogl::timestamp'
G = 1000000000
B = lambda x: bv(x, 64)

def mk(fmt):
    """value of a stored timestamp and construction of an arbitrary valid one, per storage format"""
    unit = fmt
    def val(v, st, p):
        w = bv(v.ex.peek(st, p, 8), 64)
        if fmt == 'ns':
            return w
        so, no = v.off_sec, v.off_nsec
        sec = z3.Extract(31, 0, w) if so == 0 else z3.Extract(63, 32, w)
        nsec = z3.Extract(31, 0, w) if no == 0 else z3.Extract(63, 32, w)
        return z3.ZeroExt(32, sec) * G + z3.ZeroExt(32, nsec)
    def layout(v):
        """where the two halves live: found from what from_timespec does"""
        if fmt == 'ns':
            return
        p = v.obj(T, 'probe'); ts = v.buf('tsp', 16)
        s = v.st.clone()
        v.ex.poke(s, ts, 8, 1); v.ex.poke(s, ts.plus(8), 8, 0)
        for st, _ in v.call(r'timestamp::from_timespec\(', [p, ts], s):
            w = v.ex.peek(st, p, 8)
            v.off_sec, v.off_nsec = (0, 4) if norm(simp(w)) == 1 else (4, 0)
    def new(v, name):
        p = v.obj(T, name)
        if fmt == 'ns':
            x = v.sym(name)
            v.ex.poke(v.st, p, 8, x)
            return p, x
        sec, nsec = v.sym(name + '.sec', 32), v.sym(name + '.nsec', 32)
        v.assume(z3.ULT(nsec, G))
        lo, hi = (sec, nsec) if v.off_sec == 0 else (nsec, sec)
        v.ex.poke(v.st, p, 8, z3.Concat(hi, lo))
        return p, z3.ZeroExt(32, sec) * G + z3.ZeroExt(32, nsec)
    def contracts(v):
        """callers are checked against the contract of from_nsec proved in the conversions task"""
        if fmt == 'ns' or not v.has(r'timestamp::from_nsec\('):
            return
        def from_nsec(ex, st, a, c):
            x = B(a[1])
            ex.oblige(st, 'value handed to from_nsec is representable', fits(x), 'pre')
            st.assume(fits(x))
            sec, nsec = ex.fresh('sec', 32), ex.fresh('nsec', 32)
            st.assume(z3.ULT(nsec, G))
            st.assume(z3.ZeroExt(32, sec) * G + z3.ZeroExt(32, nsec) == x)
            ex.store(st, a[0], 8, z3.Concat(nsec, sec) if v.off_sec == 0 else z3.Concat(sec, nsec))
            return None
        v.model(r'timestamp::from_nsec\(', from_nsec)
    def fits(x):
        return True if fmt == 'ns' else z3.ULT(x, B(G) << 32)
    new.contracts = contracts
    return val, layout, new, fits

def conversions(fmt):
    val, layout, new, fits = mk(fmt)
    def task(V):
        def fresh(name):
            v = V(fmt + ': ' + name, [fmt]); layout(v); return v
        # ---- from_*
        for fn, mul in (('from_nsec', 1), ('from_usec', 1000), ('from_msec', 1000000), ('from_sec', G)):
            v = fresh(fn)
            p = v.obj(T, 'ts'); x = v.sym('x')
            full = z3.ZeroExt(64, x) * mul
            v.assume(z3.ULE(full, (1 << 64) - 1) if fmt == 'ns' else z3.ULT(full, G << 32))
            s0 = v.st.clone()
            for st, _ in v.call(r'timestamp::%s\(' % fn, [p, x]):
                v.ensure(st, 'value is exact', val(v, st, p) == x * mul)
                v.frame_regions(st, s0, [p.reg]); v.cover('returns', st)
        # ---- to_*
        for fn, div in (('to_nsec', 1), ('to_usec', 1000), ('to_msec', 1000000), ('to_sec', G), ('operator unsigned long', 1)):
            v = fresh(fn)
            p, x = new(v, 'ts')
            s0 = v.st.clone()
            for st, r in v.call(r'timestamp::%s\(' % fn, [p]):
                v.ensure(st, 'value is exact, rounded down', B(r) == z3.UDiv(x, B(div)))
                v.unchanged(st, s0, p, None); v.frame_regions(st, s0, []); v.cover('returns', st)
        # ---- timespec
        for fn in (r'timestamp::from_timespec\(', '@hv_ts_tspec'):
            v = fresh('from_timespec')
            p = v.obj(T, 'ts'); tsp = v.buf('timespec', 16)
            s, n = v.sym('sec'), v.sym('nsec')
            v.assume(z3.And(z3.ULE(s, 18446744072 if fmt == 'ns' else (1 << 32) - 1), z3.ULT(n, G)))
            v.ex.poke(v.st, tsp, 8, s); v.ex.poke(v.st, tsp.plus(8), 8, n)
            s0 = v.st.clone()
            for st, _ in v.call(fn, [p, tsp]):
                v.ensure(st, 'value is exact', val(v, st, p) == s * G + n)
                v.frame_regions(st, s0, [p.reg])
                for st2, _ in v.call(r'timestamp::to_timespec\(', [p, tsp], st):
                    v.ensure(st2, 'timespec to timestamp and back is the identity (seconds)', B(v.ex.peek(st2, tsp, 8)) == s)
                    v.ensure(st2, 'timespec to timestamp and back is the identity (nanoseconds)', B(v.ex.peek(st2, tsp.plus(8), 8)) == n)
                    v.cover('returns', st2)
        v = fresh('to_timespec')
        p, x = new(v, 'ts'); tsp = v.buf('timespec', 16)
        s0 = v.st.clone()
        for st, _ in v.call(r'timestamp::to_timespec\(', [p, tsp]):
            v.ensure(st, 'seconds are exact', B(v.ex.peek(st, tsp, 8)) == z3.UDiv(x, B(G)))
            v.ensure(st, 'nanoseconds are exact', B(v.ex.peek(st, tsp.plus(8), 8)) == z3.URem(x, B(G)))
            v.frame_regions(st, s0, [tsp.reg])
            for st2, _ in v.call(r'timestamp::from_timespec\(', [p, tsp], st):
                v.ensure(st2, 'timestamp to timespec and back is the identity', val(v, st2, p) == x)
                v.cover('returns', st2)
        # ---- constructors, assignment
        v = fresh('copies')
        p, x = new(v, 'ts'); q = v.obj(T, 'other')
        for fn, args in (('@hv_ts_copy', [q, p]), (r'timestamp::operator=\(', [q, p])):
            for st, _ in v.call(fn, args, v.st.clone()):
                v.ensure(st, 'copy has the same value', val(v, st, q) == x)
        v = fresh('construct from integer')
        q = v.obj(T, 'ts'); x = v.sym('x'); v.assume(fits(x))
        for st, _ in v.call('@hv_ts_u64', [q, x], v.st.clone()):
            v.ensure(st, 'value is exact', val(v, st, q) == x)
        for st, _ in v.call('@hv_ts_def', [q], v.st.clone()):
            v.ensure(st, 'default timestamp is zero', val(v, st, q) == 0)
    return task

def arithmetic(fmt):
    val, layout, new, fits = mk(fmt)
    def task(V):
        def fresh(name):
            v = V(fmt + ': ' + name, [fmt]); layout(v); new.contracts(v); return v
        for op, rx, f in (('<', r'operator<\(', z3.ULT), ('>', r'operator>\(', z3.UGT), ('==', r'operator==\(', lambda a, b: a == b)):
            v = fresh('operator' + op)
            p, x = new(v, 'a'); q, y = new(v, 'b')
            s0 = v.st.clone()
            for st, r in v.call('timestamp::' + rx, [p, q]):
                if fmt == 'ns':
                    v.ensure(st, 'comparison agrees with that of the nanosecond values', boolv(r) == f(x, y))
                else:
                    sa, na, sb, nb = [z3.BitVec(n + '$', 32) for n in ('a.sec', 'a.nsec', 'b.sec', 'b.nsec')]
                    lex = {'<': z3.Or(z3.ULT(sa, sb), z3.And(sa == sb, z3.ULT(na, nb))), '>': z3.Or(z3.UGT(sa, sb), z3.And(sa == sb, z3.UGT(na, nb))), '==': z3.And(sa == sb, na == nb)}[op]
                    v.ensure(st, 'comparison is lexicographic by seconds then nanoseconds', boolv(r) == lex)
                    S, N, U, M = [z3.Int(n) for n in 'SNUM']     # all terms stay below 2^64: no wrap-around
                    g = {'<': lambda a, b: a < b, '>': lambda a, b: a > b, '==': lambda a, b: a == b}[op]
                    lex64 = {'<': z3.Or(S < U, z3.And(S == U, N < M)), '>': z3.Or(S > U, z3.And(S == U, N > M)), '==': z3.And(S == U, N == M)}[op]
                    v.lemma('lexicographic comparison agrees with that of the nanosecond values', lex64 == g(S * G + N, U * G + M),
                            [0 <= S, S < 1 << 32, 0 <= U, U < 1 << 32, 0 <= N, N < G, 0 <= M, M < G])
                v.frame_regions(st, s0, [])
                v.cover('returns', st)
        two = 1 << 64
        for nm, rx, kind in (('+', r'operator\+\(', 1), ('-', r'operator-\(', -1)):
            for argt in ('unsigned long', 'int', 'hogl::timestamp const&'):
                v = fresh('operator%s(%s)' % (nm, argt))
                out = v.obj(T, 'result')
                p, x = new(v, 'a')
                if argt == 'hogl::timestamp const&':
                    q, y = new(v, 'b'); arg = q
                elif argt == 'int':
                    a = v.sym('b', 32); arg = a; y = z3.SignExt(32, a)
                else:
                    arg = y = v.sym('b')
                exp = x + y if kind > 0 else x - y
                X, Y = z3.ZeroExt(8, x), (z3.SignExt(8, y) if argt == 'int' else z3.ZeroExt(8, y))
                E = X + Y if kind > 0 else X - Y
                v.assume(z3.And(E >= 0, z3.ULT(E, two if fmt == 'ns' else G << 32)))   # the result is representable
                s0 = v.st.clone()
                n = v.find(r'timestamp::%s%s\) const' % (rx, re.escape(argt)))
                sret = 'sret' in v.ex.fn[n].header
                for st, r in v.call(n, [out, p, arg] if sret else [p, arg]):
                    if not sret:
                        v.ex.poke(st, out, 8, r if not isinstance(r, list) else r[0])
                    v.ensure(st, 'result is exact', val(v, st, out) == exp)
                    v.frame_regions(st, s0, [out.reg]); v.cover('returns', st)
        for nm, rx, exp in (('+=u', r'operator\+=\(unsigned long\)', 'u'), ('+=i', r'operator\+=\(int\)', 'i'), ('++', r'operator\+\+\(\)', 1), ('--', r'operator--\(\)', -1)):
            v = fresh('operator' + nm)
            p, x = new(v, 'a')
            args = [p]
            if exp == 'u':
                y = v.sym('b'); args.append(y); E = z3.ZeroExt(8, x) + z3.ZeroExt(8, y)
            elif exp == 'i':
                a = v.sym('b', 32); args.append(a); y = z3.SignExt(32, a); E = z3.ZeroExt(8, x) + z3.SignExt(8, y)
            else:
                y = z3.BitVecVal(exp, 64); E = z3.ZeroExt(8, x) + exp
            v.assume(z3.And(E >= 0, z3.ULT(E, two if fmt == 'ns' else G << 32)))
            s0 = v.st.clone()
            for st, r in v.call('timestamp::' + rx, args):
                v.ensure(st, 'result is exact', val(v, st, p) == x + y)
                if nm in ('++', '--'):
                    v.ensure(st, 'returns the timestamp itself', ptr_eq(r, p))
                v.frame_regions(st, s0, [p.reg]); v.cover('returns', st)
    return task
import re
TASKS = [('conversions-ns', conversions('ns')), ('arithmetic-ns', arithmetic('ns')), ('conversions-timespec', conversions('tspec')), ('arithmetic-timespec', arithmetic('tspec'))]
REPLAY = {'src': 'R17.cc', 'more': ['R17_timespec.cc'], 'repo_srcs': [], 'timeout': 60}
