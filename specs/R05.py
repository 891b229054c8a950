from hv.sym import *
from hv.spec import *
from hv import lib, cxx
import z3

UNITS = {'args': '$VERIF/units/args.cc'}
TRUSTED = ['memcpy, strlen contracts']
ASSUMPTIONS = ['strings and blobs are shorter than 4 GiB (the lengths are 32 bits wide)', 'payload room between 128 bytes (guaranteed by R02) and 1 GiB', 'IEEE conversion float to double is uninterpreted',
               'source strings and blobs do not overlap the record']
REC, PACK, ARG, XD = 'hogl::record', 'hogl::argpack', 'hogl::arg', 'hogl::arg_xdump'
NONE, U32, I32, U64, I64, PTR, DBL, CSTR, GSTR, XDUMP, RAW_ = range(11)
Z = lambda x: z3.ZeroExt(32, x) if not isc(x) else x
HDR = 32

def b32(x):
    return z3.BitVecVal(x, 32)

def mkrec(v, hdr=None):
    """a record slot with T bytes of payload room"""
    T = v.sym('tailroom', 32)
    v.assume(z3.UGE(T, 128)); v.assume(z3.ULE(T, 1 << 30))
    hdr = v.off(REC, 'argval')[0]
    rec = v.buf('record', simp(Z(T) + hdr))
    rec.reg.cls = REC
    return rec, T, hdr

# ---- what a copy must leave: (slot offset, slot length, bytes used, content of payload byte j)
def spec_cstr(src, ln, T, off):
    room = T - off
    empty = z3.Or(ln == 0, room == 0)
    R = room - 1
    L = z3.If(z3.UGT(ln, R), R, ln)
    cut = z3.And(z3.UGT(ln, R), z3.UGT(R, 3))
    m = z3.If(cut, R - 3, L)
    def byte(j):
        return z3.If(z3.ULT(j, m), src(j), z3.If(z3.ULT(j, L), z3.BitVecVal(ord('>'), 8), z3.BitVecVal(0, 8)))
    return z3.If(empty, b32(0), off), z3.If(empty, b32(0), L), z3.If(empty, b32(0), L + 1), byte

def spec_data(src, ln, T, off):
    room = T - off
    L = z3.If(z3.UGT(ln, room), room, ln)
    return off, L, L, src

def spec_xdump(src, fmt, ln, T, off):
    room = T - off
    big = z3.UGT(Z(ln) + 4, Z(room))
    L = z3.If(big, room, ln + 4)
    none = z3.ULT(L, 4)
    def byte(j):
        return z3.If(z3.ULT(j, 4), z3.Extract(7, 0, z3.LShR(fmt, z3.ZeroExt(24, z3.Extract(7, 0, j)) * 8)), src(j - 4))
    return z3.If(none, b32(0), off), z3.If(none, b32(0), L), z3.If(none, b32(0), L), byte

def copies(V):
    for kind in ('cstr', 'data', 'xdump'):
        v = V('record::copy_' + kind)
        rx = r'^hogl::record::copy_%s\(' % kind
        if not v.has(rx):
            v.ensure(v.st, 'no helper to verify (executed in place)', True)
            continue
        rec, T, hdr = mkrec(v)
        i, off, ln = v.sym('i', 32), v.sym('offset', 32), v.sym('len', 32)
        v.assume(z3.ULT(i, 16)); v.assume(z3.UGE(off, 8 * (i + 1))); v.assume(z3.ULE(off, T)); v.assume(z3.ULT(ln, 0xfffffff0))
        src = v.buf('source', Z(ln))
        rd = lambda j: bv(v.st.m(src.reg).read(None, simp(Z(j)), 1), 8)
        args = [rec, i, src, ln, T, off]
        if kind == 'cstr':
            so, sl, used, byte = spec_cstr(rd, ln, T, off)
        elif kind == 'data':
            so, sl, used, byte = spec_data(rd, ln, T, off)
        else:
            xd = v.obj(XD, 'xdump')
            fmt = v.sym('fmt', 32)
            v.ex.poke(v.st, v.fptr(xd, XD, 'fmt'), 4, fmt)
            v.set(v.st, xd, XD, 'ptr', src); v.set(v.st, xd, XD, 'len', ln)
            so, sl, used, byte = spec_xdump(rd, fmt, ln, T, off)
            args = [rec, i, xd, T, off]
        k = v.sym('byte', 32)
        s0 = v.st.clone()
        outs = v.call(rx, args)
        for st, r in outs:
            v.ensure(st, 'returns the number of payload bytes used', EQ(r, used))
            m, m0 = st.m(rec.reg), s0.m(rec.reg)
            a = simp(Z(k))
            slot = hdr + 8 * Z(i)
            inslot = z3.And(z3.UGE(a, slot), z3.ULT(a, slot + 8))
            pay = z3.And(z3.UGE(a, hdr + Z(off)), z3.ULT(a, hdr + Z(off) + Z(used)))
            j = k - hdr - off
            new, old = bv(m.read(None, a, 1), 8), bv(m0.read(None, a, 1), 8)
            val = z3.Concat(sl, so)
            sh = z3.Extract(7, 0, a - slot)
            sb = z3.Extract(7, 0, z3.LShR(val, z3.ZeroExt(56, sh) * 8))
            inr = z3.ULT(a, hdr + Z(T))
            v.ensure(st, 'the slot holds offset and length of what was stored', z3.Implies(z3.And(inr, inslot), new == sb))
            v.ensure(st, 'the payload is the longest prefix that fits, terminated and marked as specified', z3.Implies(z3.And(inr, z3.Not(inslot), pay), new == byte(j)))
            v.ensure(st, 'no other byte of the record changes', z3.Implies(z3.And(inr, z3.Not(inslot), z3.Not(pay)), new == old))
            v.frame_regions(st, s0, [rec.reg])
        v.cover_exists('stored whole', [(st, z3.And(used != 0, z3.UGT(ln, 5))) for st, r in outs])
        v.cover_exists('cut', [(st, z3.And(used != 0, z3.UGT(ln, T))) for st, r in outs])

# ---- one argument
def mkarg(v, name='arg'):
    """a hogl::arg of any type and value; complex ones point at a source"""
    a = v.obj(ARG, name)
    ty, val, ln = v.sym(name + '.type', 32), v.sym(name + '.val', 64), v.sym(name + '.len', 32)
    v.assume(z3.ULE(ty, RAW_))
    v.set(v.st, a, ARG, 'type', ty); v.set(v.st, a, ARG, 'val', val); v.set(v.st, a, ARG, 'len', ln)
    return a, ty, val, ln

def log_copies(v, rec):
    """record::copy_* by contract: returns some number of bytes that fit; payload and slot as the copies task proves"""
    ex = v.ex
    def mk(kind):
        def f(ex, st, a, c):
            if kind == 'xdump':
                this, i, p, T, off = a; ln = None
            else:
                this, i, p, ln, T, off = a
            ex.oblige(st, 'copy_%s: payload starts behind the slots and inside the room' % kind, AND(ULE(off, T, 32), z3.UGE(bv(off, 32), 8 * (bv(i, 32) + 1)), ULT(i, 16, 32)), 'pre')
            u = ex.fresh('used', 32)
            st.assume(z3.ULE(u, bv(T, 32) - bv(off, 32)))
            st.ghost['copies'] = st.ghost.get('copies', ()) + ((kind, this, i, p, ln, T, off, u),)
            return u
        return f
    for k in ('cstr', 'data', 'xdump'):
        v.model(r'^hogl::record::copy_%s\(' % k, mk(k))

def set_arg(V):
    v = V('record::set_arg')
    T = v.sym('tailroom', 32)
    v.assume(z3.UGE(T, 128)); v.assume(z3.ULE(T, 1 << 30))
    rec = v.obj(REC, 'record')
    at0 = v.sym('argtype', 64)
    v.set(v.st, rec, REC, 'argtype', at0)
    log_copies(v, rec)
    i, off = v.sym('i', 32), v.sym('offset', 32)
    v.assume(z3.ULT(i, 16)); v.assume(z3.UGE(off, 8 * (i + 1))); v.assume(z3.ULE(off, T))
    v.assume((z3.LShR(at0, Z(i) * 4) & 15) == 0)
    a, ty, val, ln = mkarg(v)
    offp = v.buf('offsetvar', 4, elem=4)
    v.ex.poke(v.st, offp, 4, off)
    q = v.sym('q', 32); v.assume(z3.ULT(q, 16))
    s0 = v.st.clone()
    outs = v.call(r'^hogl::record::set_arg\(', [rec, i, a, T, offp])
    h = v.off(REC, 'argval')[0]
    for st, _ in outs:
        cp = st.ghost.get('copies', ())
        v.ensure(st, 'the type is recorded in its nibble only', EQ(v.get(st, rec, REC, 'argtype'), z3.If(ty == NONE, at0, at0 | (Z(ty) << (Z(i) * 4)))))
        kind = {('cstr',): CSTR, ('data',): RAW_, ('xdump',): XDUMP}.get(tuple(c[0] for c in cp))
        v.ensure(st, 'each string or blob is copied exactly once, by its own copier', (ty == kind) if kind is not None else (z3.And(ty != CSTR, ty != RAW_, ty != XDUMP) if not cp else False))
        noff = v.ex.peek(st, offp, 4)
        if len(cp) == 1:
            _, this, ci, p, cl, ct, co, u = cp[0]
            v.ensure(st, 'copied into this record and slot, from the argument, at the current offset, within the room',
                     AND(ptr_eq(this, rec), EQ(ci, i), ptr_eq(p, Ptr(RAW, val)), True if cl is None else EQ(cl, ln), EQ(ct, T), EQ(co, off)))
            v.ensure(st, 'offset advances by the bytes used', EQ(noff, off + u))
        else:
            v.ensure(st, 'offset is kept', EQ(noff, off))
            sv = v.ex.peek(st, rec.plus(h), 8) if False else bv(st.m(rec.reg).read(None, simp(h + 8 * Z(i)), 4), 32)
            hi = bv(st.m(rec.reg).read(None, simp(h + 8 * Z(i) + 4), 4), 32)
            is32 = z3.Or(ty == U32, ty == I32)
            v.ensure(st, 'the value is stored', z3.Implies(ty != NONE, z3.And(sv == z3.Extract(31, 0, val), z3.Or(is32, hi == z3.Extract(63, 32, val)))))
        old, new = s0.m(rec.reg).read(None, simp(h + 8 * Z(q)), 8), st.m(rec.reg).read(None, simp(h + 8 * Z(q)), 8)
        v.ensure(st, 'no other slot changes', z3.Implies(q != i, bv(new, 64) == bv(old, 64)))
        v.unchanged(st, s0, rec, REC, except_=['argtype', (h, h + 128)])
        v.frame_regions(st, s0, [rec.reg, offp.reg])
    v.cover_exists('string', [(st, ty == CSTR) for st, _ in outs])
    v.cover_exists('64 bit', [(st, ty == DBL) for st, _ in outs])

def set_args_list(V):
    """record::set_args(room, a0..a15): offsets start behind the slots in use, arguments in order"""
    v = V('record::set_args(16 arguments)')
    ex = v.ex
    T = v.sym('tailroom', 32)
    v.assume(z3.UGE(T, 128)); v.assume(z3.ULE(T, 1 << 30))
    rec = v.obj(REC, 'record')
    args = [mkarg(v, 'arg%d' % k) for k in range(16)]
    n = sum((z3.If(a[1] != NONE, b32(1), b32(0)) for a in args), b32(0))
    # the public interface fills arguments from the left
    for k in range(1, 16):
        v.assume(z3.Implies(args[k][1] != NONE, args[k - 1][1] != NONE))
    def step(ex, st, a, c):
        this, i, ap, t, offp = a
        L = st.ghost.get('calls', ())
        ty, val, ln = [v.get(st, ap, ARG, f) for f in ('type', 'val', 'len')]
        off = ex.peek(st, offp, 4)
        at = v.get(st, this, REC, 'argtype')
        u = ex.fresh('used', 32)
        st.assume(z3.ULE(u, bv(t, 32) - bv(off, 32)))
        st.assume(z3.Implies(z3.Not(z3.Or([bv(ty, 32) == x for x in (CSTR, RAW_, XDUMP)])), u == 0))
        # behaviour of set_arg on the shared state
        v.set(st, this, REC, 'argtype', simp(z3.If(bv(ty, 32) == NONE, bv(at, 64), bv(at, 64) | (Z(bv(ty, 32) & 15) << (Z(bv(i, 32)) * 4)))))
        ex.poke(st, offp, 4, simp(bv(off, 32) + u))
        st.ghost['calls'] = L + ((this, i, ty, val, ln, t, off, u),)
        return None
    v.model(r'^hogl::record::set_arg\(', step)
    s0 = v.st.clone()
    for st, _ in v.call(r'^hogl::record::set_args\(unsigned int, hogl::arg, ', [rec, T] + [a[0] for a in args]):
        L = st.ghost.get('calls', ())
        v.ensure(st, 'every argument is considered once', len(L) == 16)
        exp = n * 8
        cond, cond2 = [], []
        seen = set()
        for (this, i, ty, val, ln, t, off, u) in L:
            if not isc(i) or i > 15 or i in seen:
                v.ensure(st, 'each argument has its own slot', False)
                continue
            seen.add(i)
            _, ety, eval_, eln = args[i]
            cond.append(AND(ptr_eq(this, rec), EQ(t, T), EQ(ty, ety), EQ(val, eval_), EQ(ln, eln)))
            cond2.append(EQ(off, exp))
            exp = exp + bv(u, 32)
        v.ensure(st, 'slot i is given argument i and the payload room', AND(*cond))
        v.ensure(st, 'payloads are laid out one after the other behind the slots in use', AND(*cond2))
        v.ensure(st, 'the type word holds exactly the types, argument i in nibble i', EQ(v.get(st, rec, REC, 'argtype'), simp(sum((Z(a[1]) << (4 * k) for k, a in enumerate(args)), z3.BitVecVal(0, 64)))))
        v.unchanged(st, s0, rec, REC, except_=['argtype'])
        v.frame_regions(st, s0, [rec.reg])
        v.cover('sixteen arguments', st, z3.And([a[1] == U32 for a in args]))
    # consequence of the layout: payload ranges are disjoint, behind the slots and inside the room
    of = [z3.BitVec('of%d' % k, 64) for k in range(4)]
    u = [z3.BitVec('u%d' % k, 64) for k in range(4)]
    nn, TT = z3.BitVec('nn', 64), z3.BitVec('TT', 64)
    v.lemma('consecutive payloads neither overlap nor leave the room', z3.And(z3.ULE(of[0] + u[0], of[1]), z3.ULE(of[1] + u[1], TT), z3.UGE(of[0], nn * 8)),
            [z3.ULE(nn, 16), z3.ULE(TT, 1 << 30), z3.UGE(of[0], nn * 8), z3.ULE(of[0], TT), z3.ULE(u[0], TT - of[0]), z3.UGE(of[1], of[0] + u[0]), z3.ULE(of[1], TT), z3.ULE(u[1], TT - of[1])])

def top_nibble(at, n):
    """n is the number of arguments in type word at"""
    n64 = Z(bv(n, 32))
    return z3.And(z3.ULE(n64, 16), z3.If(n64 == 16, z3.LShR(at, 60) != 0, z3.And(z3.LShR(at, n64 * 4) == 0, z3.Or(n64 == 0, (z3.LShR(at, (n64 - 1) * 4) & 15) != 0))))

NARGS = r'^hogl::argpack::nargs\(\) const$'
def nargs(V):
    v = V('argpack::nargs')
    p = v.obj(PACK, 'pack')
    at = v.sym('argtype', 64)
    v.set(v.st, p, PACK, 'argtype', at)
    s0 = v.st.clone()
    if not v.has(NARGS):
        v.ensure(v.st, 'no helper', True)
        return
    outs = v.call(NARGS, [p])
    for st, r in outs:
        v.ensure(st, 'number of arguments', top_nibble(at, r))
        v.frame_regions(st, s0, [])
    v.cover_exists('sixteen', [(st, EQ(r, 16, 32)) for st, r in outs])
    v.cover_exists('none', [(st, EQ(r, 0, 32)) for st, r in outs])

# ---- record::set_args from a pack
OFS = z3.Function('payload_offset', z3.BitVecSort(32), z3.BitVecSort(32))
CONT = z3.Function('content', z3.BitVecSort(32), z3.BitVecSort(64), z3.BitVecSort(32), z3.BitVecSort(32), z3.BitVecSort(32), z3.BitVecSort(8))
XLEN = z3.Function('xdump_len', z3.BitVecSort(64), z3.BitVecSort(32))
def outcome(ty, p, ln, T, off):
    """(slot offset, slot length, used) of storing a complex argument: the contracts of the copies task"""
    z = lambda j: z3.BitVecVal(0, 8)
    c = spec_cstr(z, ln, T, off); d = spec_data(z, ln, T, off); x = spec_xdump(z, b32(0), XLEN(p), T, off)
    sel = lambda k: z3.If(ty == CSTR, c[k], z3.If(ty == RAW_, d[k], z3.If(ty == XDUMP, x[k], b32(0))))
    return sel(0), sel(1), sel(2)

def set_args_pack(V):
    v = V('record::set_args(argpack)')
    ex = v.ex
    T = v.sym('tailroom', 32)
    v.assume(z3.UGE(T, 128)); v.assume(z3.ULE(T, 1 << 30))
    h = v.off(REC, 'argval')[0]
    rec = v.buf('record', simp(Z(T) + h))
    rec.reg.cls = REC
    p = v.buf('pack', v.size(PACK))
    at = v.sym('argtype', 64)
    ty = lambda i: z3.Extract(31, 0, z3.LShR(at, Z(i) * 4) & 15)
    pm = ex.region('packbytes', v.size(PACK), 'arr')
    o_val, o_len, o_at = v.off(PACK, 'argval')[0], v.off(PACK, 'arglen')[0], v.off(PACK, 'argtype')[0]
    ex.poke(v.st, p.plus(o_at), 8, at)
    pk0 = v.st.m(p.reg)
    val = lambda i: bv(pk0.read(None, simp(o_val + 8 * Z(i)), 8), 64)
    ln = lambda i: bv(pk0.read(None, simp(o_len + 4 * Z(i)), 4), 32)
    N = v.sym('nargs', 32)
    v.assume(top_nibble(at, N))
    def m_nargs(ex, st, a, c):
        ex.oblige(st, 'counts the arguments of the pack', ptr_eq(a[0], p), 'pre')
        return N
    if v.has(NARGS):
        v.model(NARGS, m_nargs)
    v.assume(OFS(b32(0)) == 8 * N)
    USED = z3.Function('used_by', z3.BitVecSort(32), z3.BitVecSort(32))
    used = lambda i: USED(bv(i, 32))
    kinds = {'cstr': CSTR, 'data': RAW_, 'xdump': XDUMP}
    def mk(kind):
        def f(ex, st, a, c):
            if kind == 'xdump':
                this, i, sp, t, off = a; l = XLEN(bv(sp.addr() if isinstance(sp, Ptr) else sp, 64))
            else:
                this, i, sp, l, t, off = a
            i = bv(i, 32)
            sp = bv(sp.addr() if isinstance(sp, Ptr) else sp, 64)
            ex.oblige(st, 'copies one of the arguments, into its own slot, from its own source, at its own place',
                      z3.And(z3.ULT(i, N), boolv(ptr_eq(this, rec)), bv(off, 32) == OFS(i), bv(t, 32) == T, sp == val(i), boolv(True if kind == 'xdump' else EQ(l, ln(i)))), 'pre')
            ex.oblige(st, 'copied by the copier of its type', ty(i) == kinds[kind], 'pre')
            so, sl, u = outcome(b32(kinds[kind]), sp, bv(l, 32), bv(t, 32), bv(off, 32))
            st.assume(z3.Implies(i == q, z3.And(so == QO, sl == QL)))
            st.assume(USED(i) == u)      # definition of the ghost function at i
            u = USED(i)
            m = st.m(rec.reg).write(None, simp(h + 8 * Z(i)), 8, simp(z3.Concat(sl, so)))
            j = z3.BitVec('j', 64)
            content = z3.Lambda([j], CONT(b32(kinds[kind]), sp, bv(l, 32), T - bv(off, 32), z3.Extract(31, 0, j - (h + Z(bv(off, 32))))))
            st.mem[rec.reg.id] = m.havoc_range(simp(h + Z(bv(off, 32))), simp(Z(u)), content)
            return simp(u)
        return f
    for k in kinds:
        v.model(r'^hogl::record::copy_%s\(' % k, mk(k))
    q = v.sym('q', 32); v.assume(z3.ULT(q, N))
    b = v.sym('b', 32); v.assume(z3.ULT(b, used(q)))
    QO, QL = v.fresh('offset of payload q', 32), v.fresh('length of payload q', 32)   # the outcome of storing argument q
    z = v.sym('slotbyte', 32); v.assume(z3.ULT(z, 8))
    s0 = v.st.clone()
    def done(st, i):
        """argument q has been stored (q below i): its slot and byte b of its payload"""
        m = st.m(rec.reg)
        so, sl = QO, QL
        cpx = z3.Or(ty(q) == CSTR, ty(q) == RAW_, ty(q) == XDUMP)
        got = bv(m.read(None, simp(h + 8 * Z(q) + Z(z)), 1), 8)
        want = z3.If(cpx, z3.Concat(sl, so), val(q))
        want = z3.Extract(7, 0, z3.LShR(want, Z(z) * 8))
        slot = z3.Or(got == want, z3.And(z3.UGE(z, 4), z3.Or(ty(q) == U32, ty(q) == I32)))
        pay = bv(m.read(None, simp(h + Z(OFS(q)) + Z(b)), 1), 8) == CONT(ty(q), val(q), z3.If(ty(q) == XDUMP, XLEN(val(q)), ln(q)), T - OFS(q), b)
        return slot, pay
    def cands(ex, st, lv):
        out = []
        ints = [(k, bv(x, 32)) for k, x in lv.ints(32)]
        for k, x in ints:
            if not (isc(lv.init[k]) and lv.init[k] == 0):
                continue
            for k2, y in ints:
                if k2 == k:
                    continue
                out.append(('%s is the payload offset of argument %s' % (k2, k), y == OFS(x)))
            sl, pay = done(st, x)
            out.append(('slots stored below %s' % (k,), z3.Implies(z3.ULT(q, x), sl)))
            out.append(('payload stored below %s' % (k,), z3.Implies(z3.And(z3.ULT(q, x), z3.ULT(b, used(q))), pay)))
            out.append(('payloads precede %s' % (k,), z3.Implies(z3.ULT(q, x), z3.And(z3.ULE(Z(OFS(q)) + Z(used(q)), Z(OFS(x)))))))
            out.append(('counter %s' % (k,), z3.ULE(x, N)))
            out.append(('offset %s' % (k,), z3.And(z3.ULE(OFS(x), T), z3.UGE(OFS(x), 8 * N))))
            out.append(('q offset %s' % (k,), z3.Implies(z3.ULE(q, x), z3.And(z3.ULE(OFS(q), T), z3.UGE(OFS(q), 8 * N)))))
        m = st.m(rec.reg)
        for o in (0, 8, 16, 24):
            out.append(('header %d' % o, bv(m.read(None, o, 8), 64) == bv(lv.entry.m(rec.reg).read(None, o, 8), 64)))
        return out
    def begin(ex, st, lv):
        for k, x in lv.ints(32):
            x = bv(x, 32)
            st.assume(OFS(x + 1) == OFS(x) + used(x))
            st.assume(z3.Implies(z3.ULE(OFS(x), T), z3.ULE(used(x), T - OFS(x))))
            st.assume(z3.Implies(z3.Not(z3.Or(ty(x) == CSTR, ty(x) == RAW_, ty(x) == XDUMP)), used(x) == 0))
    v.loop(r'hogl::record::set_args\(', LoopSpec(auto=False, cands=cands, begin=begin, variant=lambda ex, st, lv: [simp(N - bv(x, 32)) for k, x in lv.ints(32)]))
    tt, pp, ll, oo = z3.BitVecs('ty_ ll_ oo_ tt_', 32)[0], z3.BitVec('pp_', 64), z3.BitVec('l_', 32), z3.BitVec('o_', 32)
    v.lemma('what is stored fits the room', z3.ULE(outcome(tt, pp, ll, T, oo)[2], T - oo), [z3.ULE(oo, T), z3.ULE(T, 1 << 30)])
    outs = v.call(r'^hogl::record::set_args\(unsigned int, hogl::argpack const&\)', [rec, T, p])
    for st, _ in outs:
        m = st.m(rec.reg)
        v.ensure(st, 'the type word is that of the pack', EQ(m.read(None, v.off(REC, 'argtype')[0], 8), at))
        sl, pay = done(st, N)
        v.ensure(st, 'slot q holds argument q', sl)
        v.ensure(st, 'payload of argument q is at its place', pay)
        v.ensure(st, 'the record header is not touched', AND(*[EQ(m.read(None, o, 8), s0.m(rec.reg).read(None, o, 8)) for o in (0, 8, 16)]))
        v.frame_regions(st, s0, [rec.reg])
    v.cover_exists('string stored', [(st, ty(q) == CSTR) for st, _ in outs])

# ---- packs
def pack(V):
    v = V('argpack::set_arg')
    p = v.obj(PACK, 'pack')
    at0 = v.sym('argtype', 64)
    v.set(v.st, p, PACK, 'argtype', at0)
    v.model(r'^hogl::arg_check\(', lambda ex, st, a, c: None)
    i = v.sym('i', 32); v.assume(z3.ULT(i, 16)); v.assume((z3.LShR(at0, Z(i) * 4) & 15) == 0)
    a, ty, val, ln = mkarg(v)
    q = v.sym('q', 32); v.assume(z3.ULT(q, 16))
    ov, ol = v.off(PACK, 'argval')[0], v.off(PACK, 'arglen')[0]
    s0 = v.st.clone()
    outs = v.call(r'^hogl::argpack::set_arg\(', [p, i, a])
    for st, r in outs:
        m, m0 = st.m(p.reg), s0.m(p.reg)
        v.ensure(st, 'the type is recorded in its nibble only', EQ(v.get(st, p, PACK, 'argtype'), z3.If(ty == NONE, at0, at0 | (Z(ty) << (Z(i) * 4)))))
        rd = lambda m, o: bv(m.read(None, simp(o), 4), 32)
        cpx = z3.Or(ty == CSTR, ty == XDUMP, ty == RAW_)
        v.ensure(st, 'the value is packed', z3.Implies(ty != NONE, z3.And(rd(m, ov + 8 * Z(i)) == z3.Extract(31, 0, val), z3.Or(ty == U32, ty == I32, rd(m, ov + 8 * Z(i) + 4) == z3.Extract(63, 32, val)))))
        v.ensure(st, 'the length of a string or blob is packed', z3.Implies(z3.Or(ty == CSTR, ty == RAW_), rd(m, ol + 4 * Z(i)) == ln))
        v.ensure(st, 'tells whether the argument carries data', EQ(r, z3.If(cpx, b32(1), b32(0)), 32))
        v.ensure(st, 'other arguments are kept', z3.Implies(q != i, z3.And(rd(m, ov + 8 * Z(q)) == rd(m0, ov + 8 * Z(q)), rd(m, ov + 8 * Z(q) + 4) == rd(m0, ov + 8 * Z(q) + 4), rd(m, ol + 4 * Z(q)) == rd(m0, ol + 4 * Z(q)))))
        v.frame_regions(st, s0, [p.reg])
    v.cover_exists('string', [(st, ty == CSTR) for st, _ in outs])
    v = V('argpack::populate')
    p = v.obj(PACK, 'pack')
    args = [mkarg(v, 'arg%d' % k) for k in range(16)]
    def step(ex, st, a, c):
        this, i, ap = a
        ty, val, ln = [v.get(st, ap, ARG, f) for f in ('type', 'val', 'len')]
        at = v.get(st, this, PACK, 'argtype')
        v.set(st, this, PACK, 'argtype', simp(bv(at, 64) | (Z(bv(ty, 32) & 15) << (Z(bv(i, 32)) * 4))))
        st.ghost['calls'] = st.ghost.get('calls', ()) + ((this, i, ty, val, ln),)
        ty = bv(ty, 32)
        return simp(z3.If(z3.Or(ty == CSTR, ty == XDUMP, ty == RAW_), b32(1), b32(0)))
    v.model(r'^hogl::argpack::set_arg\(', step)
    s0 = v.st.clone()
    for st, r in v.call(r'^hogl::argpack::populate\(', [p] + [a[0] for a in args]):
        L = st.ghost.get('calls', ())
        v.ensure(st, 'every argument is packed once', sorted(str(c[1]) for c in L) == sorted(str(k) for k in range(16)))
        v.ensure(st, 'slot i is given argument i', AND(*[AND(ptr_eq(t, p), EQ(ty, args[i][1]), EQ(val, args[i][2]), EQ(ln, args[i][3])) for (t, i, ty, val, ln) in L if isc(i) and i < 16]))
        v.ensure(st, 'the type word holds exactly the types, argument i in nibble i', EQ(v.get(st, p, PACK, 'argtype'), simp(sum((Z(a[1]) << (4 * k) for k, a in enumerate(args)), z3.BitVecVal(0, 64)))))
        v.ensure(st, 'zero exactly when no argument carries data', (bv(r, 32) == 0) == z3.And([z3.And(a[1] != CSTR, a[1] != XDUMP, a[1] != RAW_) for a in args]))
        v.frame_regions(st, s0, [p.reg])
        v.cover('returns', st)
    v = V('argpack::argpack')
    p = v.obj(PACK, 'pack')
    for st, _ in v.call(r'^hv_mk_argpack$', [p]):
        v.ensure(st, 'a new pack is empty', EQ(v.get(st, p, PACK, 'argtype'), 0))
        v.cover('returns', st)

# ---- argument construction
def ctors(V):
    simple = [('bool', 'bool', U32, lambda x: z3.If(x, z3.BitVecVal(1, 64), z3.BitVecVal(0, 64))), ('u8', 8, U32, 'z'), ('u16', 16, U32, 'z'), ('u32', 32, U32, 'z'), ('i32', 32, I32, 's'), ('i16', 16, I32, 's'), ('char', 8, I32, 's'),
              ('ul', 64, U64, 'z'), ('l', 64, I64, 's'), ('ull', 64, U64, 'z'), ('ll', 64, I64, 's'), ('dbl', 64, DBL, 'z')]
    for n, w, ty, cv in simple:
        v = V('arg(%s)' % n)
        a = v.obj(ARG, 'arg')
        x = v.sym('x', w)
        s0 = v.st.clone()
        arg = x
        for st, _ in v.call(r'^hv_arg_%s$' % n, [a, arg]):
            v.ensure(st, 'type of the argument', EQ(v.get(st, a, ARG, 'type'), ty))
            e = cv(x) if callable(cv) else (x if w == 64 else z3.ZeroExt(64 - w, x) if cv == 'z' else z3.SignExt(64 - w, x))
            got = bv(v.get(st, a, ARG, 'val'), 64)
            if w == 64:
                v.ensure(st, 'value of the argument', got == e)
            else:
                v.ensure(st, 'value of the argument (32 bits)', z3.Extract(31, 0, got) == z3.Extract(31, 0, e))
            v.frame_regions(st, s0, [a.reg])
            v.cover('returns', st)
    v = V('arg(float)')
    a = v.obj(ARG, 'arg')
    for st, _ in v.call(r'^hv_arg_flt$', [a, v.sym('x', 32)]):
        v.ensure(st, 'a float is passed as double', EQ(v.get(st, a, ARG, 'type'), DBL))
        v.cover('returns', st)
    for n in ('ptr', 'vptr'):
        v = V('arg(%s)' % n)
        a = v.obj(ARG, 'arg')
        x = v.sym('x', 64)
        for st, _ in v.call(r'^hv_arg_%s$' % n, [a, Ptr(RAW, x)]):
            v.ensure(st, 'pointer argument', AND(EQ(v.get(st, a, ARG, 'type'), PTR), EQ(v.get(st, a, ARG, 'val'), x)))
            v.cover('returns', st)
    for null in (False, True):
        v = V('arg(const char *)' + (' null' if null else ''))
        a = v.obj(ARG, 'arg')
        s = v.buf('string', v.sym('size', 64)); s.reg.strlen = v.sym('len', 64)
        v.assume(z3.ULT(s.reg.strlen, s.reg.size)); v.assume(z3.ULT(s.reg.size, 1 << 32))
        for st, _ in v.call(r'^hv_arg_cstr$', [a, NULL if null else s]):
            v.ensure(st, 'type', EQ(v.get(st, a, ARG, 'type'), CSTR))
            v.ensure(st, 'length', EQ(v.get(st, a, ARG, 'len'), 0 if null else z3.Extract(31, 0, s.reg.strlen)))
            v.ensure(st, 'source', ptr_eq(v.get(st, a, ARG, 'val', True), NULL if null else s))
            v.cover('returns', st)
    v = V('arg(std::string)')
    a = v.obj(ARG, 'arg')
    cxx.install(v)
    s = v.buf('content', v.sym('size', 64)); s.reg.strlen = None
    so = v.buf('stringobj', 32)
    dp, ll = v.sym('data', 64), v.sym('length', 64)
    v.assume(z3.ULT(ll, 1 << 32))
    for rx, r in ((r'basic_string<.*::data\(\) const$', Ptr(RAW, dp)), (r'basic_string<.*::c_str\(\) const$', Ptr(RAW, dp)), (r'basic_string<.*::(length|size)\(\) const$', ll)):
        v.ex.models.insert(0, (re.compile(rx), lambda ex, st, a, c, r=r: r))
    v.ex._mcache.clear()
    for st, _ in v.call(r'^hv_arg_str$', [a, so]):
        v.ensure(st, 'string argument', AND(EQ(v.get(st, a, ARG, 'type'), CSTR), EQ(v.get(st, a, ARG, 'val'), dp), EQ(v.get(st, a, ARG, 'len'), z3.Extract(31, 0, ll))))
        v.cover('returns', st)
    v = V('arg(arg_gstr)')
    a = v.obj(ARG, 'arg'); g = v.obj('hogl::arg_gstr', 'gstr'); x = v.sym('x', 64)
    for st, _ in v.call(r'^hv_mk_gstr$', [g, Ptr(RAW, x)]):
        for st2, _ in v.call(r'^hv_arg_gstr$', [a, g], st):
            v.ensure(st2, 'global string argument', AND(EQ(v.get(st2, a, ARG, 'type'), GSTR), EQ(v.get(st2, a, ARG, 'val'), x)))
            v.cover('returns', st2)
    v = V('arg(arg_raw)')
    a = v.obj(ARG, 'arg'); g = v.obj('hogl::arg_raw', 'raw'); x = v.sym('x', 64); n = v.sym('n', 32)
    for st, _ in v.call(r'^hv_mk_raw$', [g, Ptr(RAW, x), n]):
        for st2, _ in v.call(r'^hv_arg_raw$', [a, g], st):
            v.ensure(st2, 'raw argument', AND(EQ(v.get(st2, a, ARG, 'type'), RAW_), EQ(v.get(st2, a, ARG, 'val'), x), EQ(v.get(st2, a, ARG, 'len'), n)))
            v.cover('returns', st2)
    v = V('arg(arg_xdump)')
    a = v.obj(ARG, 'arg'); g = v.obj(XD, 'xd'); x = v.sym('x', 64); n = v.sym('n', 32)
    t, bw, pr, lw, d = [v.sym(k, 8) for k in ('t', 'bw', 'pr', 'lw', 'd')]
    for st, _ in v.call(r'^hv_mk_xdump$', [g, Ptr(RAW, x), n, t, bw, pr, lw, d]):
        v.ensure(st, 'format and blob', AND(EQ(v.get(st, g, XD, 'ptr'), x), EQ(v.get(st, g, XD, 'len'), n), EQ(v.ex.peek(st, v.fptr(g, XD, 'fmt'), 4), z3.Concat(d, lw, z3.Extract(3, 0, pr), z3.Extract(3, 0, bw), t))))
        for st2, _ in v.call(r'^hv_arg_xd$', [a, g], st):
            v.ensure(st2, 'xdump argument', AND(EQ(v.get(st2, a, ARG, 'type'), XDUMP), ptr_eq(v.get(st2, a, ARG, 'val', True), g)))
            v.cover('returns', st2)
    v = V('arg()')
    a = v.obj(ARG, 'arg')
    for st, _ in v.call(r'^hv_arg_none$', [a]):
        v.ensure(st, 'no argument', EQ(v.get(st, a, ARG, 'type'), NONE))
        v.cover('returns', st)

def getters(V):
    v = V('record::get_arg_*')
    rec, T, h = mkrec(v)
    i = v.sym('i', 32); v.assume(z3.ULT(i, 16))
    s0 = v.st.clone()
    m = v.st.m(rec.reg)
    w = lambda o, n: bv(m.read(None, simp(h + 8 * Z(i) + o), n), 8 * n)
    for st, r in v.call(r'^hogl::record::get_arg_val64\(', [rec, i]):
        v.ensure(st, '64 bit value', EQ(r, w(0, 8)))
    for st, r in v.call(r'^hogl::record::get_arg_val32\(', [rec, i]):
        v.ensure(st, '32 bit value', EQ(r, w(0, 4)))
    for st, r in v.call(r'^hogl::record::get_arg_type\(', [rec, i]):
        v.ensure(st, 'type', EQ(r, z3.Extract(31, 0, z3.LShR(bv(m.read(None, v.off(REC, 'argtype')[0], 8), 64), 4 * Z(i)) & 15)))
    ln = v.buf('lenvar', 4, elem=4)
    for st, r in v.call(r'^hogl::record::get_arg_data\(', [rec, i, ln]):
        v.ensure(st, 'data starts at the stored offset from the slots', ptr_eq(r, rec.plus(simp(h + Z(w(0, 4))))))
        v.ensure(st, 'data has the stored length', EQ(v.ex.peek(st, ln, 4), w(4, 4)))
        v.frame_regions(st, s0, [ln.reg])
        v.cover('returns', st)

TASKS = [('copies', copies), ('set_arg', set_arg), ('set_args list', set_args_list), ('nargs', nargs), ('set_args pack', set_args_pack), ('pack', pack), ('ctors', ctors), ('getters', getters)]
REPLAY = {'src': 'R05.cc', 'timeout': 100}
