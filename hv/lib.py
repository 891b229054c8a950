"""Assumed contracts for LLVM intrinsics, libc, pthread and the C++ runtime (the trusted base)."""
import re
import z3
from .sym import *
from .exec import Abort

LIB = {}
LIBRX = []
def lib(*names):
    def d(f):
        for n in names:
            LIB[n] = f
        return f
    return d
def librx(*rx):
    def d(f):
        for r in rx:
            LIBRX.append((re.compile(r), f))
        return f
    return d

def fresh_ret(ex, st, args, c):
    t = c.ty
    if t is None or t[0] == 'void':
        return None
    return ex.undefv(c.mod, t)

# ---- intrinsics ------------------------------------------------------------------------------
def intrinsic(ex, st, name, a, c):
    n = name[6:]
    if n.startswith(('expect',)):
        return a[0]
    if n.startswith('memcpy') or n.startswith('memmove'):
        memcpy(ex, st, a[0], a[1], a[2])
        return None
    if n.startswith('memset'):
        memset(ex, st, a[0], a[1], a[2])
        return None
    if n.startswith(('assume', 'prefetch', 'stacksave', 'stackrestore', 'donothing', 'sideeffect', 'invariant', 'launder', 'strip', 'var.annotation')):
        if n.startswith('stacksave'):
            return NULL
        if n.startswith(('launder', 'strip')):
            return a[0]
        return None
    if n.startswith('threadlocal.address'):
        return a[0]
    m = re.match(r'(umax|umin|smax|smin|abs|bswap|ctpop|ctlz|cttz|fshl|fshr)\.i(\d+)', n)
    if m:
        w = int(m.group(2))
        x = bv(a[0], w)
        k = m.group(1)
        if k == 'abs':
            return simp(z3.If(x < 0, -x, x))
        if k == 'ctlz':
            r = z3.BitVecVal(w, w)
            for i in range(w):
                r = z3.If(z3.Extract(i, i, x) == 1, z3.BitVecVal(w - 1 - i, w), r)
            return simp(r)
        if k == 'cttz':
            r = z3.BitVecVal(w, w)
            for i in range(w - 1, -1, -1):
                r = z3.If(z3.Extract(i, i, x) == 1, z3.BitVecVal(i, w), r)
            return simp(r)
        if k == 'ctpop':
            r = z3.BitVecVal(0, w)
            for i in range(w):
                r = r + z3.ZeroExt(w - 1, z3.Extract(i, i, x))
            return simp(r)
        if k == 'bswap':
            return simp(z3.Concat(*[z3.Extract(8 * i + 7, 8 * i, x) for i in range(w // 8)]))
        y = bv(a[1], w)
        if k in ('fshl', 'fshr'):
            z = z3.ZeroExt(w, bv(a[2], w) % w) if False else None
            raise Unsupported(n)
        return simp({'umax': lambda: z3.If(z3.UGE(x, y), x, y), 'umin': lambda: z3.If(z3.ULE(x, y), x, y),
                     'smax': lambda: z3.If(x >= y, x, y), 'smin': lambda: z3.If(x <= y, x, y)}[k]())
    m = re.match(r'(u|s)(add|sub|mul)\.with\.overflow\.i(\d+)', n)
    if m:
        w = int(m.group(3))
        x, y = bv(a[0], w), bv(a[1], w)
        s = m.group(1) == 's'
        o = m.group(2)
        if o == 'add':
            r = x + y
            ov = z3.Not(z3.And(z3.BVAddNoOverflow(x, y, s), z3.BVAddNoUnderflow(x, y) if s else True))
        elif o == 'sub':
            r = x - y
            ov = z3.Not(z3.And(z3.BVSubNoUnderflow(x, y, s), z3.BVSubNoOverflow(x, y) if s else True))
        else:
            r = x * y
            ov = z3.Not(z3.And(z3.BVMulNoOverflow(x, y, s), z3.BVMulNoUnderflow(x, y) if s else True))
        return [simp(r), simp(ov)]
    if n.startswith('trap'):
        raise Abort('trap')
    if n.startswith(('va_start', 'va_end', 'va_copy')):
        return None
    if n.startswith('objectsize'):
        return MASK[64]
    if n.startswith('is.constant'):
        return False
    if n.startswith(('fabs', 'floor', 'ceil', 'round', 'trunc', 'fmuladd', 'pow', 'log')):
        return fresh_ret(ex, st, a, c)
    raise Unsupported('intrinsic ' + n)

def range_ok(ex, st, p, n, what):
    """obligation: [p, p+n) inside the region"""
    r = p.reg
    if r.kind in ('null', 'raw'):
        if r.kind == 'raw':
            q = ex.resolve_raw(st, p)
            if q is not None:
                return range_ok(ex, st, q, n, what)
            if isc(n) and n == 0:
                return p
            raise Unsupported(what + ' through unresolved pointer')
        ex.oblige(st, 'no null %s unless empty' % what, EQ(n, 0), 'safety')
        if EQ(n, 0) is True:
            return p
        st.assume(EQ(n, 0))
        return p
    if r.id in st.dead:
        ex.oblige(st, 'no %s of freed memory %s' % (what, r.name), False, 'safety')
        raise Abort('dead')
    if r.kind == 'fn':
        raise Unsupported(what + ' of function')
    if r.kind == 'aos':
        p = aos_norm(p)
        if isc(n) and isc(p.off) and p.off + n <= r.stride:
            ex.oblige(st, '%s stays inside the elements of %s' % (what, r.name), ULT(bv(p.idx, 64), bv(r.count, 64)), 'safety')
            return p
        c = aos_split(n, r.stride)
        if c is None or c[1] != 0 or p.off != 0:
            raise Unsupported(what + ' of parts of elements of ' + r.name)
        ex.oblige(st, '%s stays inside the elements of %s' % (what, r.name), AND(ULE(bv(c[0], 64), bv(r.count, 64)), ULE(bv(p.idx, 64), bv(r.count, 64) - bv(c[0], 64))), 'safety')
        return p
    if r.size is not None and r.check:
        if isc(p.off) and isc(n) and isc(r.size):
            c = p.off + n <= r.size
        else:
            c = AND(ULE(n, r.size), ULE(p.off, sub(r.size, n)))
        if c is not True:
            ex.oblige(st, '%s of n bytes stays inside %s' % (what, r.name), c, 'safety')
            if c is False:
                raise Abort('oob')
    if r.ro and what == 'write':
        ex.oblige(st, 'no write to read-only %s' % r.name, False, 'safety')
    return p

def memcpy(ex, st, d, s, n):
    n = simp(n)
    if isc(n) and n == 0:
        return
    d = d if isinstance(d, Ptr) else ex.toptr(st, d)
    s = s if isinstance(s, Ptr) else ex.toptr(st, s)
    if not isc(n):
        # a possibly-empty copy through null is fine
        pass
    s = range_ok(ex, st, s, n, 'read')
    d = range_ok(ex, st, d, n, 'write')
    if d.reg.kind in ('null', 'raw'):
        return
    for h in getattr(ex, 'on_memcpy', ()):
        h(ex, st, d, s, n)
    src = st.m(s.reg)
    if s.reg.kind == 'aos' and d.reg.kind == 'aos' and not (isc(n) and n <= s.reg.stride):
        if s.reg.stride != d.reg.stride:
            raise Unsupported('copy between different element arrays')
        st.mem[d.reg.id] = st.m(d.reg).copy_elems(d.idx, aos_split(n, s.reg.stride)[0], src, s.idx)
        ex.reg(d.reg)
        return
    if isc(n) and isc(s.off) and isc(d.off) and n <= 256 and not (s.reg.kind == 'arr' and d.reg.kind == 'arr'):
        o = 0
        dm = st.m(d.reg)
        vals = []
        while o < n:
            k = 8 if n - o >= 8 else 4 if n - o >= 4 else 2 if n - o >= 2 else 1
            if s.reg.elem:
                k = min(s.reg.elem, n - o)
            if d.reg.elem:
                k = min(k, d.reg.elem)
            v = None
            if k == 8:
                v = src.read(s.idx, s.off + o, 8, True)
                if isinstance(v, Ptr) and v.reg is RAW:
                    v = v.off
            if v is None:
                v = src.read(s.idx, s.off + o, k, False)
            vals.append((o, k, v))
            o += k
        for o, k, v in vals:
            dm = dm.write(d.idx, d.off + o, k, v)
        st.mem[d.reg.id] = dm
        ex.reg(d.reg)
        return
    if d.reg.kind == 'fam' or s.reg.kind == 'fam':
        raise Unsupported('memcpy of symbolic size with an object family')
    if s.reg is d.reg:
        src = Mem(s.reg, src.layers)
    st.mem[d.reg.id] = st.m(d.reg).copy_in(d.off, n, src, s.off)
    ex.reg(d.reg)

def memset(ex, st, d, b, n):
    n = simp(n)
    if isc(n) and n == 0:
        return
    d = range_ok(ex, st, d, n, 'write')
    if d.reg.kind in ('null', 'raw'):
        return
    b = b if isc(b) else trunc(b, 8)
    b = b & 255 if isc(b) else b
    if isc(n) and isc(d.off) and n <= 512 and d.reg.kind != 'arr':
        dm = st.m(d.reg)
        o = 0
        while o < n:
            k = 8 if (n - o >= 8 and (d.off + o) % 8 == 0) else 4 if (n - o >= 4 and (d.off + o) % 4 == 0) else 1
            dm = dm.write(d.idx, d.off + o, k, concat([b] * k))
            o += k
        st.mem[d.reg.id] = dm
        ex.reg(d.reg)
        return
    if d.reg.kind == 'fam':
        raise Unsupported('memset family')
    st.mem[d.reg.id] = st.m(d.reg).fill(d.off, n, b)
    ex.reg(d.reg)

@lib('memcpy', 'memmove')
def _memcpy(ex, st, a, c):
    memcpy(ex, st, a[0], a[1], a[2])
    return a[0]

@lib('mempcpy')
def _mempcpy(ex, st, a, c):
    memcpy(ex, st, a[0], a[1], a[2])
    return a[0].plus(a[2])

@lib('memset')
def _memset(ex, st, a, c):
    memset(ex, st, a[0], a[1], a[2])
    return a[0]

def cstr_of(ex, st, p):
    """concrete C string content or None"""
    try:
        out = b''
        o = p.off
        if not isc(o) or p.reg.kind not in ('obj',):
            return None
        m = st.m(p.reg)
        while len(out) < 4096:
            b = m.read(None, o + len(out), 1)
            if not isc(b):
                return None
            if b == 0:
                return out
            out += bytes([b])
    except Exception:
        return None
    return None

def slen(ex, st, p, what='strlen'):
    """length of the string at p"""
    p = p if isinstance(p, Ptr) else ex.toptr(st, p)
    if p.reg.kind == 'raw':
        q = ex.resolve_raw(st, p)
        if q is None:
            raise Unsupported(what + ' of unresolved pointer')
        p = q
    if p.reg.kind == 'null':
        ex.oblige(st, 'no null dereference (%s)' % what, False, 'safety')
        raise Abort('null')
    f = getattr(p.reg, 'strlen', None)
    if f is not None:
        return f(ex, st, p) if callable(f) else simp(sub(f, p.off))
    s = cstr_of(ex, st, p)
    if s is not None:
        return len(s)
    raise Unsupported('%s of %s without string contract' % (what, p.reg.name))

@lib('strlen')
def _strlen(ex, st, a, c):
    return slen(ex, st, a[0])

@lib('strnlen')
def _strnlen(ex, st, a, c):
    n = slen(ex, st, a[0], 'strnlen')
    return simp(ITE(ULT(n, a[1]), n, a[1], 64))

def lockkey(p):
    return (p.reg.name, p.reg.id, str(p.idx) if p.idx is not None else '', str(p.off))

def held(st):
    return st.ghost.get('locks', frozenset())

@lib('pthread_mutex_lock')
def _lock(ex, st, a, c):
    k = lockkey(a[0])
    ex.oblige(st, 'mutex not already held by this thread', k not in held(st), 'lock')
    st.ghost['locks'] = held(st) | {k}
    for h in getattr(ex, 'on_lock', ()):
        h(ex, st, a[0])
    return 0

@lib('pthread_mutex_unlock')
def _unlock(ex, st, a, c):
    k = lockkey(a[0])
    ex.oblige(st, 'mutex is held when unlocked', k in held(st), 'lock')
    for h in getattr(ex, 'on_unlock', ()):
        h(ex, st, a[0])
    st.ghost['locks'] = held(st) - {k}
    return 0

@lib('pthread_mutex_trylock')
def _trylock(ex, st, a, c):
    k = lockkey(a[0])
    s2 = st.clone()
    st.ghost['locks'] = held(st) | {k}
    for h in getattr(ex, 'on_lock', ()):
        h(ex, st, a[0])
    return [(st, 0), (s2, 16)]

@lib('pthread_cond_wait', 'pthread_cond_timedwait')
def _cwait(ex, st, a, c):
    k = lockkey(a[1])
    ex.oblige(st, 'mutex is held while waiting', k in held(st), 'lock')
    for h in getattr(ex, 'on_wait', ()):
        h(ex, st, a[0], a[1])
    return 0 if c.name == '@pthread_cond_wait' else fresh_ret(ex, st, a, c)

@lib('pthread_cond_signal', 'pthread_cond_broadcast')
def _csig(ex, st, a, c):
    for h in getattr(ex, 'on_signal', ()):
        h(ex, st, a[0])
    return 0

@lib('pthread_mutex_init', 'pthread_cond_init', 'pthread_mutexattr_init', 'pthread_mutexattr_setprotocol', 'pthread_mutexattr_destroy',
     'pthread_mutexattr_settype', 'pthread_condattr_init', 'pthread_condattr_setclock', 'pthread_mutex_destroy', 'pthread_cond_destroy', 'pthread_join')
def _zero(ex, st, a, c):
    return 0

@lib('sched_yield', 'usleep', 'nanosleep', 'clock_gettime', 'gettimeofday', 'time', 'close', 'fflush', 'fclose', 'fputs', 'puts', 'printf', 'fprintf', 'perror', 'strerror', 'vfprintf', '__errno_location', 'prctl', 'putchar')
def _fresh(ex, st, a, c):
    if c.name == '@__errno_location':
        r = st.ghost.get('errno_reg')
        if r is None:
            r = ex.region('errno', 4)
            st.ghost['errno_reg'] = r
        return Ptr(r, 0)
    return fresh_ret(ex, st, a, c)

@lib('abort', 'exit', '_exit', '_ZSt9terminatev', '__assert_fail', '__clang_call_terminate', '__cxa_pure_virtual')
def _abort(ex, st, a, c):
    for h in getattr(ex, 'on_abort', ()):
        h(ex, st, c.name[1:])
    raise Abort('abort')

@lib('__cxa_throw', '__cxa_rethrow', '_ZSt17__throw_bad_allocv', '_ZSt28__throw_bad_array_new_lengthv')
def _throw(ex, st, a, c):
    for h in getattr(ex, 'on_throw', ()):
        h(ex, st, c.name[1:])
    raise Abort('throw')

@librx(r'^std::__throw_')
def _throw2(ex, st, a, c):
    for h in getattr(ex, 'on_throw', ()):
        h(ex, st, c.name[1:])
    raise Abort('throw')

@lib('__cxa_allocate_exception')
def _exc(ex, st, a, c):
    return Ptr(ex.region('exception', 64), 0)

@lib('__cxa_free_exception', '__cxa_begin_catch', '__cxa_end_catch', '__cxa_atexit', '__cxa_guard_release', '__cxa_guard_abort')
def _nop(ex, st, a, c):
    return fresh_ret(ex, st, a, c)

@lib('__cxa_guard_acquire')
def _guard(ex, st, a, c):
    return 0

def new_region(ex, st, n, name):
    r = ex.region(name, simp(n), 'obj' if isc(simp(n)) and simp(n) <= 4096 else 'arr')
    r.heap = True
    st.ghost['heap'] = st.ghost.get('heap', frozenset()) | {r.id}
    return Ptr(r, 0)

@lib('_Znwm', '_Znam', '_ZnwmSt11align_val_t', '_ZnamSt11align_val_t')
def _new(ex, st, a, c):
    return new_region(ex, st, a[0], 'new')

@lib('_ZnwmRKSt9nothrow_t', '_ZnamRKSt9nothrow_t', 'malloc')
def _malloc(ex, st, a, c):
    s2 = st.clone()
    p = new_region(ex, st, a[0], 'malloc')
    return [(st, p), (s2, NULL)]

@lib('strdup')
def _strdup(ex, st, a, c):
    n = slen(ex, st, a[0], 'strdup')
    s2 = st.clone()
    p = new_region(ex, st, add(n, 1), 'strdup')
    memcpy(ex, st, p, a[0], add(n, 1))
    p.reg.strlen = n
    p.reg.dup_of = a[0]
    return [(st, p), (s2, NULL)]

@lib('posix_memalign')
def _pma(ex, st, a, c):
    s2 = st.clone()
    p = new_region(ex, st, a[2], 'aligned')
    ex.store(st, a[0], 8, p)
    return [(st, 0), (s2, 12)]

@lib('_ZdlPv', '_ZdaPv', '_ZdlPvm', '_ZdaPvm', 'free', '_ZdlPvSt11align_val_t', '_ZdlPvmSt11align_val_t')
def _free(ex, st, a, c):
    p = a[0] if isinstance(a[0], Ptr) else ex.toptr(st, a[0])
    if p.reg.kind == 'null':
        return None
    if p.reg.kind == 'raw':
        q = ex.resolve_raw(st, p)
        if q is None:
            raise Unsupported('free of unresolved pointer')
        p = q
    ex.oblige(st, 'no double free of ' + p.reg.name, p.reg.id not in st.dead, 'safety')
    ex.oblige(st, 'free of the start of a heap object', AND(getattr(p.reg, 'heap', False), EQ(p.off, 0)), 'safety')
    for h in getattr(ex, 'on_free', ()):
        h(ex, st, p)
    st.dead = st.dead | {p.reg.id}
    st.ghost['heap'] = st.ghost.get('heap', frozenset()) - {p.reg.id}
    return None

@librx(r'^fmt::v6::', r'^(int|void) fmt::v6::', r'^int fmt', r'^std::ostream', r'^std::basic_ostream', r'operator<<')
def _fmt(ex, st, a, c):
    for h in getattr(ex, 'on_lib_print', ()):
        h(ex, st, a, c)
    if c.ty and c.ty[0] == 'ptr' and a:
        return a[0]
    return fresh_ret(ex, st, a, c)
