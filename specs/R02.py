from ringlib import *
from hv.spec import *

UNITS = {'ring': '$VERIF/units/ring.cc', 'ringbuf': '$REPO/src/ringbuf.cc'}
TRUSTED = ['posix_memalign, strdup, sysconf, pthread_*_init contracts']
ASSUMPTIONS = ['requested storage below 4 GiB (the code multiplies in 32 bits) and capacity at least two', 'memory allocation succeeds (on failure the ring reports capacity 1 and holds nothing)']
OPT = 'hogl::ringbuf::options'
LOG2 = r'__roundup_log2\('

def log2_contract(ex, st, a, c):
    """requires v <= 2^31; ensures 2^ret >= v, ret minimal"""
    x = bv(a[0], 32)
    ex.oblige(st, '__roundup_log2 is asked for a representable power of two', z3.ULE(x, 1 << 31), 'pre')
    st.assume(z3.ULE(x, 1 << 31))
    i = ex.fresh('log2', 32)
    one = z3.BitVecVal(1, 32)
    st.assume(z3.And(z3.ULE(i, 31), z3.UGE(one << i, x), z3.Or(i == 0, z3.ULT(one << (i - 1), x))))
    return i

def log2(V):
    v = V('__roundup_log2')
    if not v.has(LOG2):
        v.ensure(v.st, 'no helper to verify (executed in place)', True)
        return
    x = v.sym('v', 32)
    v.assume(z3.ULE(x, 1 << 31))
    one = z3.BitVecVal(1, 32)
    outs = v.call(LOG2, [x])
    for st, r in outs:
        r = bv(r, 32)
        v.ensure(st, 'result is an exponent', z3.ULE(r, 31))
        v.ensure(st, 'power of two is large enough', z3.UGE(one << r, x))
        v.ensure(st, 'power of two is the smallest one', z3.Or(r == 0, z3.ULT(one << (r - 1), x)))
    v.cover_exists('large', [(s, EQ(r, 31)) for s, r in outs])

def heap_models(v):
    def sysconf(ex, st, a, c):
        return 4096
    v.model(r'^sysconf$', sysconf)

def ctor(V):
    v = V('ringbuf::ringbuf')
    ex = v.ex
    p = v.obj(RB, 'ring')
    name = v.buf('name', 64); name.reg.strlen = v.sym('namelen'); v.assume(z3.ULT(name.reg.strlen, 64))
    o = v.obj(OPT, 'opts')
    cap, prio, flags, room = [v.sym(n, 32) for n in ('capacity', 'prio', 'flags', 'tailroom')]
    for f, x in (('capacity', cap), ('prio', prio), ('flags', flags), ('record_tailroom', room)):
        v.set(v.st, o, OPT, f, x)
    v.assume(z3.UGE(cap, 2)); v.assume(z3.ULE(cap, 1 << 30)); v.assume(z3.ULE(room, 1 << 29))
    # storage representable: next powers of two multiply below 2^32
    c64, r64 = z3.ZeroExt(32, cap), z3.ZeroExt(32, room)
    kc, kr = v.sym('kc', 64), v.sym('kr', 64)
    one = z3.BitVecVal(1, 64)
    v.assume(z3.And(z3.ULE(kc, 31), z3.ULE(kr, 31), z3.UGE(one << kc, c64), z3.UGE(one << kr, z3.If(z3.UGT(r64, 128), r64 + 24 + 8, z3.BitVecVal(160, 64))), z3.ULT(kc + kr, 32)))
    if v.has(LOG2):
        v.model(LOG2, log2_contract)
    heap_models(v)
    s0 = v.st.clone()
    outs = v.call(r'^hogl::ringbuf::ringbuf\(char const\*', [p, name, o])
    live = []
    for st, ret in outs:
        top = v.get(st, p, RB, '_rec_top', True)
        if is_null(top) is True:
            v.ensure(st, 'failed allocation leaves no capacity', EQ(v.get(st, p, RB, '_capacity'), 0))
            continue
        live.append((st, True))
        C = bv(v.get(st, p, RB, '_capacity'), 32)
        sh = bv(v.get(st, p, RB, '_rec_shift'), 32)
        C64 = z3.ZeroExt(32, C)
        v.ensure(st, 'capacity is a power of two', ((C + 1) & C) == 0)
        v.ensure(st, 'capacity is at least the requested one and not more than doubled', z3.And(z3.UGE(C64 + 1, c64), z3.ULT(C64 + 1, 2 * c64)))
        v.ensure(st, 'slot size is a power of two below 2^31', z3.ULE(sh, 30))
        v.ensure(st, 'slots start at the beginning of a heap block of exactly capacity times slot size bytes',
                 AND(top.reg.kind != 'raw', EQ(top.off, 0), EQ(top.reg.size, simp((C64 + 1) << z3.ZeroExt(32, sh)))))
        rs = z3.BitVecVal(1, 32) << sh
        hdr = v.off('hogl::record', 'argval')[0]
        v.ensure(st, 'record_size covers header and all argument slots', z3.UGE(rs, v.size('hogl::record')))
        v.ensure(st, 'tail room is what follows the header in the slot', EQ(v.get(st, p, RB, '_rec_tailroom'), simp(rs - hdr)))
        v.ensure(st, 'each slot has at least the requested payload room', z3.UGE(bv(v.get(st, p, RB, '_rec_tailroom'), 32), room))
        v.ensure(st, 'payload room covers the argument slots', z3.UGE(bv(v.get(st, p, RB, '_rec_tailroom'), 32), v.size('hogl::record') - hdr))
        k = v.fresh('k', 64)
        b = st.m(top.reg).read(None, k, 1)
        v.ensure(st, 'storage is zeroed', IMP(ULT(k, top.reg.size), EQ(b, 0)))
        h, t = bv(v.get(st, p, RB, '_head'), 32), bv(v.get(st, p, RB, '_tail'), 32)
        v.ensure(st, 'ring starts empty', z3.And(((t - h - 1) & C) == 0, z3.ULE(h, C), z3.ULE(t, C)))
        v.ensure(st, 'sequence numbers start at zero', EQ(v.get(st, p, RB, '_seqnum'), 0))
        v.ensure(st, 'drop count starts at zero', EQ(v.get(st, p, RB, '_dropcnt'), 0))
        v.ensure(st, 'flags are the requested ones', EQ(v.get(st, p, RB, '_flags'), flags))
        v.ensure(st, 'priority is the requested one up to the ceiling', EQ(v.get(st, p, RB, '_prio'), simp(z3.If(prio > 9999, z3.BitVecVal(9999, 32), prio))))
        v.ensure(st, 'nobody is blocked', EQ(v.get(st, p, RB, '_block_active'), 0))
        v.ensure(st, 'no references', EQ(v.get(st, p, RB, '_refcnt'), 0))
        v.ensure(st, 'time source is set', NOT(is_null(v.get(st, p, RB, '_timesource', True))))
        nm = v.get(st, p, RB, '_name', True)
        if is_null(nm) is not True:
            v.ensure(st, 'name is a private copy', AND(getattr(nm.reg, 'heap', False), EQ(nm.off, 0), ptr_eq(getattr(nm.reg, 'dup_of', NULL), name)))
        fresh = set(st.ghost.get('heap', ()))
        v.ensure(st, 'nothing else allocated', fresh <= {top.reg.id, nm.reg.id})
        v.frame_regions(st, s0, [p.reg, top.reg, nm.reg])
    v.cover_exists('constructed', live)

def slots(V):
    v = V('get_record/get_index')
    r = Ring(v)
    i = v.sym('i', 32)
    v.assume(z3.ULE(i, r.C))
    s0 = v.st.clone()
    for st, p in v.call(r'^hogl::ringbuf::get_record\(unsigned int\)$', [r.p, i]):
        v.ensure(st, 'slot i starts at i times the slot size', ptr_eq(p, Ptr(r.slots.reg, r.slot(i))))
        v.ensure(st, 'slot lies inside the storage', z3.ULE(bv(p.off, 64) + (z3.BitVecVal(1, 64) << z3.ZeroExt(32, r.shift)), r.slots.reg.size))
        for st2, j in v.call(r'^hogl::ringbuf::get_index\(hogl::record\*\)$', [r.p, p], st):
            v.ensure(st2, 'index of the slot of i is i', EQ(j, i))
            v.unchanged(st2, s0, r.p, RB)
            v.cover('returns', st2)
    i2, j2, s2, C2 = [z3.BitVec(x, 64) for x in ('i2', 'j2', 's2', 'C2')]
    one = z3.BitVecVal(1, 64)
    v.lemma('distinct slots do not overlap', z3.Implies(i2 != j2, z3.Or(z3.UGE(j2 << s2, (i2 << s2) + (one << s2)), z3.UGE(i2 << s2, (j2 << s2) + (one << s2)))),
            [z3.ULE(s2, 30), z3.ULT(i2, 1 << 31), z3.ULT(j2, 1 << 31)])

def reset(V):
    v = V('ringbuf::reset')
    r = Ring(v)
    s0 = v.st.clone()
    off = v.off(RB, '_mutex')[0]
    def on_store(ex, st, p, n, val, i):
        if p.reg is r.p.reg and isc(p.off) and any(p.off == r.offs[f][0] for f in ('_head', '_tail', '_seqnum', '_dropcnt')):
            ex.oblige(st, 'indices of a shared ring are reset under its lock', OR((r.flags & SHARED) == 0, any(k[1] == r.p.reg.id and k[3] == str(off) for k in lib.held(st))), 'lock')
    v.ex.on_store.append(on_store)
    for st, ret in v.call(r'^hogl::ringbuf::reset\(\)$', [r.p]):
        v.ensure(st, 'ring is empty', AND(EQ(r.unread(r.head(st), r.tail(st)), 0), ULE(r.head(st), r.C), ULE(r.tail(st), r.C)))
        v.ensure(st, 'sequence numbers restart', EQ(r.f(st, '_seqnum'), 0))
        v.ensure(st, 'drop count restarts', EQ(r.f(st, '_dropcnt'), 0))
        v.ensure(st, 'lock released', not lib.held(st))
        v.unchanged(st, s0, r.p, RB, except_=['_head', '_tail', '_seqnum', '_dropcnt'])
        v.frame_regions(st, s0, [r.p.reg])
        v.cover('returns', st)

def dtor(V):
    v = V('ringbuf::~ringbuf')
    r = Ring(v)
    r.slots.reg.heap = True
    name = v.buf('name', 16); name.reg.heap = True; name.reg.strlen = v.sym('namelen'); v.assume(z3.ULT(name.reg.strlen, 16))
    v.set(v.st, r.p, RB, '_name', name)
    v.set(v.st, r.p, RB, '_rec_top', r.slots)
    ref = v.sym('refcnt', 32)
    v.set(v.st, r.p, RB, '_refcnt', ref)
    outs = v.call(r'^hogl::ringbuf::~ringbuf\(\)$', [r.p])
    for st, ret in outs:
        v.ensure(st, 'only an unreferenced ring is destroyed', EQ(ref, 0))
        v.ensure(st, 'slot storage and name are freed', r.slots.reg.id in st.dead and name.reg.id in st.dead)
        v.cover('destroyed', st)
    for k, st in v.ex.ended:
        if k == 'abort':
            v.ensure(st, 'aborts only for a ring in use', NE(ref, 0))
    v.ensure(v.st, 'a ring in use is never destroyed silently', any(k == 'abort' for k, _ in v.ex.ended))

TASKS = [('log2', log2), ('ctor', ctor), ('slots', slots), ('reset', reset), ('dtor', dtor)]
REPLAY = {'src': 'R02.cc', 'timeout': 100}
