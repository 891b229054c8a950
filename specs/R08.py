from hv.sym import *
from hv.spec import *
from hv import lib, cxx, ir
import re, z3
UNITS = {'ostrbuf': '$VERIF/units/ostrbuf.cc', 'base': '$REPO/src/ostrbuf.cc', 'fd': '$REPO/src/ostrbuf-fd.cc', 'stdio': '$REPO/src/ostrbuf-stdio.cc', 'tee': '$REPO/src/ostrbuf-tee.cc', 'file': '$REPO/src/output-file.cc'}
TRUSTED = ['write/writev: take some prefix of the data (at least one byte) or fail with errno set', 'fwrite: takes everything or sets the error indicator of the stream', 'fmt (printf) puts its text through push_back', 'std::string data and length contract',
           'malloc returns null or a block of the requested size']
ASSUMPTIONS = ['a buffer capacity is below 4 GiB', 'a write that does not fail takes at least one byte', 'a downstream buffer of a tee that has not failed delivers what is flushed through it (this property, for that buffer)',
               'one thread uses a buffer at a time (the engine thread)']
OB = 'hogl::ostrbuf'
EINTR = 4
Z64 = lambda x: z3.BitVecVal(x, 64) if isc(x) else z3.ZeroExt(64 - x.size(), x) if x.size() < 64 else x
OLAYERS = (OB,)
class Buf:
    def __init__(self, v, cls, vt, cap0=False, name='buffer'):
        self.v = v
        ex = v.ex
        self.cls = cls
        self.p = v.obj(cls, name)
        self.cap = z3.BitVecVal(0, 32) if cap0 else v.sym('capacity', 32)
        self.size0 = z3.BitVecVal(0, 32) if cap0 else v.sym('size', 32)
        if cap0:
            self.data = NULL
        else:
            v.assume(self.cap != 0)
            v.assume(ULE(self.size0, self.cap))
            self.data = v.buf('buffered', Z64(self.cap))
        self.failed0 = v.sym('failed', 'bool')
        if vt:
            for m in v.mods:
                if vt in m.globals and ' external ' not in m.globals[vt][:80]:
                    v.set(v.st, self.p, OB, '_vptr$ostrbuf', ex.gptr(m, vt).plus(16))
                    break
            else:
                raise KeyError(vt)
        for f, x in (('_data', self.data), ('_capacity', simp(self.cap)), ('_size', simp(self.size0)), ('_failed', z3.If(self.failed0, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8)))):
            v.set(v.st, self.p, OB, f, x)
        self.m0 = v.st.m(self.data.reg) if not cap0 else None
    def new(self, maybe_null=True):
        """the caller's data"""
        v = self.v
        self.n = v.sym('n', 64)
        v.assume(ULE(self.n, 1 << 40))
        self.src = v.buf('data', self.n)
        self.sm0 = v.st.m(self.src.reg)
        self.k = v.sym('k', 64)
        self.total = simp(Z64(self.size0) + self.n)
        return self.src, self.n
    def byte(self, k):
        """the k-th byte of what is buffered followed by what is new"""
        s = Z64(self.size0)
        a = self.m0.read(None, k, 1) if self.m0 is not None else 0
        b = self.sm0.read(None, simp(k - s), 1)
        return ITE(ULT(k, s), bv(a, 8), bv(b, 8), 8)
    def get(self, st, f, isptr=False):
        return self.v.get(st, self.p, OB, f, isptr)
    def accept(self, st, p, a, g='pos', bad=False):
        """the sink takes a bytes at p: they must be the next ones"""
        v = self.v
        pos = bv(st.ghost[g], 64)
        a = Z64(a)
        p = p if isinstance(p, Ptr) else v.ex.toptr(st, p)
        if p.reg.kind == 'raw':
            p = v.ex.resolve_raw(st, p) or p
        if p.reg.kind == 'null':
            v.ex.oblige(st, 'no bytes from nowhere', EQ(a, 0), 'post')
            return
        x = st.m(p.reg).read(None, simp(bv(p.off, 64) + (self.k - pos)), 1)
        v.ex.oblige(st, 'the sink is given exactly the next bytes', IMP(AND(NOT(bad), ULE(pos, self.k), ULT(self.k, simp(pos + a))), EQ(bv(x, 8), self.byte(self.k))), 'post')
        v.ex.oblige(st, 'never more than was put', OR(bad, AND(ULE(a, self.total), ULE(simp(pos + a), self.total))), 'post')
        st.ghost[g] = simp(pos + a)
    def inv(self, gs=('pos',)):
        def cands(ex, st, lv):
            out = [('no failure so far', NOT(st.ghost.get('err', False)))]
            s, t = Z64(self.size0), self.total
            for g in gs:
                pos = bv(st.ghost[g], 64)
                out += [('%s within the buffered bytes' % g, ULE(pos, s)), ('%s past the buffered bytes' % g, ULE(s, pos)), ('%s bounded' % g, ULE(pos, t))]
                for r, base in ((self.data.reg, z3.BitVecVal(0, 64)), (self.src.reg, s)):
                    for key, p in lv.ptrs(r):
                        out.append(('%s points at the next byte of %s' % (key, g), EQ(simp(bv(p.off, 64) + base), pos)))
                for key, x in lv.ints():
                    if isinstance(x, (bool, z3.BoolRef)):
                        continue
                    w = Z64(bv(x, 32)) if isc(x) else Z64(x)
                    for nm, e in (('position', pos), ('position in the new data', pos - s), ('rest', t - pos), ('rest of the buffered', s - pos)):
                        out.append(('%s is the %s of %s' % (key, nm, g), EQ(w, simp(e))))
            return out
        return cands

def os_models(b, fd):
    """the operating system takes some prefix, or fails, or is interrupted"""
    v = b.v
    ex = v.ex
    v.st.ghost.update(pos=z3.BitVecVal(0, 64), err=False)
    er = ex.region('errno', 4)
    v.model(r'^__errno_location$', lambda ex, st, a, c: Ptr(er, 0))
    def fails(st):
        e = ex.fresh('errno', 32)
        ex.poke(st, Ptr(er, 0), 4, e)
        st.ghost['err'] = OR(st.ghost['err'], e != EINTR)
    def write(ex, st, a, c):
        ex.oblige(st, 'writes to the descriptor of this output', EQ(a[0], fd(st)), 'pre')
        p, n = a[1], a[2]
        p = lib.range_ok(ex, st, p if isinstance(p, Ptr) else ex.toptr(st, p), n, 'read')
        s2 = st.clone()
        fails(s2)
        r = ex.fresh('written', 64)
        st.assume(ULE(r, n)); st.assume(OR(EQ(n, 0), r != 0))
        b.accept(st, p, r)
        return [(st, r), (s2, MASK[64])]
    v.model(r'^write$', write)
    def writev(ex, st, a, c):
        ex.oblige(st, 'writes to the descriptor of this output', EQ(a[0], fd(st)), 'pre')
        if not isc(a[2]):
            raise Unsupported('writev of a symbolic number of pieces')
        s2 = st.clone()
        fails(s2)
        ps = []
        for j in range(a[2]):
            q, l = ex.peek(st, a[1].plus(16 * j), 8, True), bv(ex.peek(st, a[1].plus(16 * j + 8), 8), 64)
            q = lib.range_ok(ex, st, q, l, 'read')
            ps.append((q, l))
        tot = simp(sum([l for _, l in ps], z3.BitVecVal(0, 64)))
        r = ex.fresh('written', 64)
        st.assume(ULE(r, tot)); st.assume(OR(EQ(tot, 0), r != 0))
        left = r
        for q, l in ps:
            t = simp(z3.If(z3.ULT(left, l), left, l))
            b.accept(st, q, t)
            left = simp(left - t)
        return [(st, r), (s2, MASK[64])]
    v.model(r'^writev$', writev)
    def fwrite(ex, st, a, c):
        n = simp(bv(a[1], 64) * bv(a[2], 64))
        ex.oblige(st, 'writes to the stream of this output', ptr_eq(a[3], fd(st)), 'pre')
        p = lib.range_ok(ex, st, a[0], n, 'read')
        s2 = st.clone()
        s2.ghost['err'] = True
        b.accept(st, p, n, bad=st.ghost['err'])
        return [(st, a[2]), (s2, ex.fresh('short', 64))]
    v.model(r'^(fwrite|fwrite_unlocked)$', fwrite)
    v.model(r'^(ferror|ferror_unlocked)$', lambda ex, st, a, c: z3.If(boolv(st.ghost['err']), z3.BitVecVal(1, 32), z3.BitVecVal(0, 32)))
    v.model(r'^strerror$', lambda ex, st, a, c: Ptr(ex.region('message', 64), 0))
    v.model(r'^strncat$', strncat)

def strncat(ex, st, a, c):
    ex.oblige(st, 'the message is written to an empty string', EQ(ex.peek(st, a[0], 1), 0), 'pre')
    n = bv(a[2], 64)
    ex.oblige(st, 'the message and its end fit', AND(ULT(n, 64), ULE(simp(Z64(bv(a[0].off, 64)) + n + 1), a[0].reg.size)), 'safety')
    for j in range(64):
        if isc(a[2]) and j <= a[2]:
            ex.poke(st, a[0].plus(j), 1, ex.fresh('msg', 8) if j < a[2] else 0)
    return a[0]

def after(v, b, st, s0, data_frame=True, g=('pos',), errs=None, own=True):
    """what a flush owes"""
    failed = EQ(b.get(st, '_failed'), 1)
    err = st.ghost['err'] if errs is None else errs
    if own:
        v.ensure(st, 'a failing sink is reported, a working one is not', EQ(boolv(failed), OR(b.failed0, err)))
    for x in g:
        v.ensure(st, 'everything buffered and new is delivered, unless the sink failed', OR(b.failed0, err, EQ(bv(st.ghost[x], 64), b.total)))
    v.ensure(st, 'the buffer is empty', OR(b.failed0, EQ(b.get(st, '_size'), 0)))
    v.ensure(st, 'the buffer never holds more than its capacity', ULE(bv(b.get(st, '_size'), 32), b.cap))
    v.unchanged(st, s0, b.p, b.cls, except_=[(OBOFF['_size'], OBOFF['_size'] + 4), (OBOFF['_failed'], OBOFF['_failed'] + 65)])
    v.frame_regions(st, s0, [b.p.reg] + [r for r in [x.reg for x in st.mem.values()] if r.name == 'errno'])
    if data_frame:
        v.ensure(st, 'the data given is not changed', st.m(b.src.reg).layers == b.sm0.layers)

OBOFF = {}
def offs(v):
    for f in ('_size', '_failed', '_data', '_capacity'):
        OBOFF[f] = v.off(OB, f)[0]

def flushtask(cls, vt, extra):
    def run(V):
        for cap0 in (False, True):
            for given in (True, False):
                v = V('%s::do_flush(%s%s)' % (cls.split('::')[-1], 'data' if given else 'no data', ', unbuffered' if cap0 else ''))
                offs(v)
                b = Buf(v, cls, vt, cap0)
                src, n = b.new()
                if not given:
                    v.assume(n == 0)
                    src = NULL
                fdv = extra(v, b)
                os_models(b, fdv)
                v.loop(r'', LoopSpec(cands=b.inv(), ghost=('pos', 'err'), concrete=True))
                s0 = v.st.clone()
                outs = v.call(r'^%s::do_flush\(' % cls, [b.p, src, n])
                for st, _ in outs:
                    after(v, b, st, s0)
                v.cover_exists('delivered', [(st, AND(NOT(b.failed0), NOT(st.ghost['err']), EQ(bv(st.ghost['pos'], 64), 3 if (given or not cap0) else 0))) for st, _ in outs])
                if given:
                    v.cover_exists('failed', [(st, AND(NOT(b.failed0), st.ghost['err'])) for st, _ in outs])
    return run

def fd_extra(v, b):
    fd = v.sym('fd', 32)
    v.set(v.st, b.p, b.cls, '_fd', fd)
    return lambda st: fd
def stdio_extra(v, b):
    f = v.buf('FILE', 216)
    v.set(v.st, b.p, b.cls, '_file', f)
    return lambda st: f
def file_extra(v, b):
    v.assume(NOT(b.failed0))       # it does not look: a failed file output tries again
    of = v.obj('hogl::output_file', 'output_file')
    v.set(v.st, b.p, b.cls, '_of', of)
    def writev(ex, st, a, c):
        """contract of output_file::writev"""
        ex.oblige(st, 'writes to its file output', ptr_eq(a[0], of), 'pre')
        s2 = st.clone()
        s2.ghost['err'] = True
        if not isc(a[2]):
            raise Unsupported('writev of a symbolic number of pieces')
        tot = z3.BitVecVal(0, 64)
        for j in range(a[2]):
            q, l = ex.peek(st, a[1].plus(16 * j), 8, True), bv(ex.peek(st, a[1].plus(16 * j + 8), 8), 64)
            b.accept(st, lib.range_ok(ex, st, q, l, 'read'), l)
            tot = tot + l
        return [(st, simp(tot)), (s2, MASK[64])]
    v.model(r'^hogl::output_file::writev\(', writev)
    return lambda st: None

def task_tee(V):
    for cap0 in (False, True):
        for given in (True, False):
            v = V('ostrbuf_tee::do_flush(%s%s)' % ('data' if given else 'no data', ', unbuffered' if cap0 else ''))
            offs(v)
            b = Buf(v, 'hogl::ostrbuf_tee', '@_ZTVN4hogl11ostrbuf_teeE', cap0)
            v.assume(NOT(b.failed0))
            src, n = b.new()
            if not given:
                v.assume(n == 0)
                src = NULL
            o = [Buf(v, 'hogl::ostrbuf', '@_ZTV5hv_sb', True, 'output%d' % i) for i in (0, 1)]
            for i in (0, 1):
                v.set(v.st, b.p, b.cls, '_o%d' % i, o[i].p)
                v.st.ghost['pos%d' % i] = z3.BitVecVal(0, 64)
                v.st.ghost['bad%d' % i] = v.sym('failed%d' % i, 'bool')
            before = OR(v.st.ghost['bad0'], v.st.ghost['bad1'])
            v.st.ghost['err'] = False
            which = lambda p: 0 if p.reg is o[0].p.reg else 1
            def df(ex, st, a, c):
                i = which(a[0])
                q = lib.range_ok(ex, st, a[1], a[2], 'read')
                f = ex.fresh('fails', 'bool')
                s2 = st.clone()
                s2.ghost['bad%d' % i] = True
                b.accept(st, q, a[2], 'pos%d' % i, st.ghost['bad%d' % i])
                return [(st, None), (s2, None)]
            v.model(r'^hv_do_flush$', df)
            v.model(r'^hv_failed$', lambda ex, st, a, c: st.ghost['bad%d' % which(a[0])])
            def err(ex, st, a, c):
                st.ghost[('error',)] = which(a[0])
                return Ptr(o[which(a[0])].p.reg, 25)
            v.model(r'^hv_error$', err)
            s0 = v.st.clone()
            outs = v.call(r'^hogl::ostrbuf_tee::do_flush\(', [b.p, src, n])
            for st, _ in outs:
                for i in (0, 1):
                    v.ensure(st, 'output %d gets everything, unless an output failed' % i, OR(before, st.ghost['bad%d' % i], EQ(bv(st.ghost['pos%d' % i], 64), b.total)))
                v.ensure(st, 'the buffer is empty', OR(before, EQ(b.get(st, '_size'), 0)))
                v.ensure(st, 'the buffer never holds more than its capacity', ULE(bv(b.get(st, '_size'), 32), b.cap))
                v.unchanged(st, s0, b.p, b.cls, except_=[(OBOFF['_size'], OBOFF['_size'] + 4)])
                v.frame_regions(st, s0, [b.p.reg])
            v.cover_exists('delivered', [(st, AND(NOT(before), NOT(st.ghost['bad0']), NOT(st.ghost['bad1']))) for st, _ in outs])
            if given and not cap0:
                for st, ret in v.call(r'^hogl::ostrbuf_tee::failed\(\) const$', [b.p], s0.clone()):
                    v.ensure(st, 'failed when an output failed', EQ(boolv(ret), before))
                for st, ret in v.call(r'^hogl::ostrbuf_tee::error\(\) const$', [b.p], s0.clone()):
                    v.ensure(st, 'the error of the output that failed', IMP(before, st.ghost['bad%d' % st.ghost[('error',)]]))

PUTS = [('push_back(data, n)', r'^hogl::ostrbuf::push_back\(unsigned char const\*, unsigned long\)$', 'pn'), ('push_back(str, n)', r'^hogl::ostrbuf::push_back\(char const\*, unsigned long\)$', 'pn'),
        ('push_back(str)', r'^hogl::ostrbuf::push_back\(char const\*\)$', 'p'), ('push_back(std::string)', r'^hogl::ostrbuf::push_back\(std::', 's'), ('push_back(char)', r'^hogl::ostrbuf::push_back\(char\)$', 'c'),
        ('flush()', r'^hogl::ostrbuf::flush\(\)$', 'f'), ('flush(data, n)', r'^hogl::ostrbuf::flush\(unsigned char const\*, unsigned long\)$', 'fn')]
def task_puts(V):
    for nm, rx, kind in PUTS:
        for cap0 in (False, True):
            v = V('%s%s' % (nm, ', unbuffered' if cap0 else ''))
            offs(v)
            b = Buf(v, 'hogl::ostrbuf', '@_ZTV5hv_sb', cap0)
            src, n = b.new()
            v.st.ghost.update(flushes=0, pos=z3.BitVecVal(0, 64))
            sz0 = b.size0
            if kind == 'c':
                v.assume(n == 1)
                ch = v.sym('c', 8)
                v.assume(EQ(v.ex.peek(v.st, src, 1), ch))
                b.sm0 = v.st.m(src.reg)
            if kind == 'f':
                v.assume(n == 0)
            if kind == 'p':
                src.reg.size = simp(n + 1)
                src.reg.strlen = n
            if kind == 's':
                cxx.install(v)
                sp = v.buf('string', 32)
                cxx.setstr(v.st, sp, cxx.Str(('c', src), 0, n))
            def df(ex, st, a, c):
                ex.oblige(st, 'this buffer is flushed', ptr_eq(a[0], b.p), 'pre')
                ex.oblige(st, 'once', st.ghost['flushes'] == 0, 'post')
                st.ghost['flushes'] = 1
                ex.oblige(st, 'with what was buffered still there', AND(EQ(b.get(st, '_size'), sz0), cap0 or st.m(b.data.reg).layers == b.m0.layers), 'post')
                q = lib.range_ok(ex, st, a[1] if isinstance(a[1], Ptr) else ex.toptr(st, a[1]), a[2], 'read')
                ex.oblige(st, 'and all of the new data', EQ(a[2], n), 'post')
                st.ghost['pos'] = Z64(sz0)
                b.accept(st, q, a[2])
                v.set(st, b.p, OB, '_size', 0)
                return None
            v.model(r'^hv_do_flush$', df)
            v.model(r'^hv_failed$', lambda ex, st, a, c: b.failed0)
            s0 = v.st.clone()
            args = {'pn': [b.p, src, n], 'p': [b.p, src], 's': None, 'c': None, 'f': [b.p], 'fn': [b.p, src, n]}[kind]
            if kind == 's':
                args = [b.p, sp]
            if kind == 'c':
                args = [b.p, ch]
            outs = v.call(rx, args)
            for st, _ in outs:
                sz = bv(b.get(st, '_size'), 32)
                v.ensure(st, 'the buffer never holds more than its capacity', ULE(sz, b.cap))
                if st.ghost['flushes']:
                    v.ensure(st, 'the buffer is empty after the flush', EQ(sz, 0))
                    if kind not in ('f', 'fn'):
                        v.ensure(st, 'flushes only what does not fit', ULT(Z64(b.cap) - Z64(sz0), n))
                    if not cap0:
                        v.ensure(st, 'nothing is put into the buffer', st.m(b.data.reg).layers == b.m0.layers)
                else:
                    v.ensure(st, 'a flush always flushes', kind not in ('f', 'fn'))
                    v.ensure(st, 'the buffer grows by what was put', EQ(simp(Z64(sz)), b.total))
                    if not cap0:
                        k = b.k
                        v.ensure(st, 'the buffer holds the old bytes followed by the new ones', IMP(ULT(k, b.total), EQ(bv(st.m(b.data.reg).read(None, k, 1), 8), b.byte(k))))
                v.unchanged(st, s0, b.p, b.cls, except_=[(OBOFF['_size'], OBOFF['_size'] + 4)])
                v.frame_regions(st, s0, [b.p.reg, b.data.reg])
            if kind not in ('f', 'fn') and not cap0:
                v.cover_exists('fits', [(st, True) for st, _ in outs if not st.ghost['flushes']])
            v.cover_exists('flushes' if kind in ('f', 'fn') or (not cap0 or kind == 'c') else 'returns', [(st, True) for st, _ in outs if st.ghost['flushes'] or (cap0 and kind != 'c')])
        
def task_ctor(V):
    v = V('ostrbuf::ostrbuf')
    offs(v)
    p = v.obj(OB, 'buffer')
    cap = v.sym('capacity', 64)
    v.assume(ULT(cap, 1 << 32))
    v.model(r'^strncat$', strncat)
    outs = v.call(r'^hogl::ostrbuf::ostrbuf\(unsigned long\)$', [p, cap])
    for st, _ in outs:
        d = v.get(st, p, OB, '_data', True)
        failed = EQ(v.get(st, p, OB, '_failed'), 1)
        c = bv(v.get(st, p, OB, '_capacity'), 32)
        v.ensure(st, 'empty', EQ(v.get(st, p, OB, '_size'), 0))
        v.ensure(st, 'of the requested capacity, unless it failed', OR(failed, EQ(simp(Z64(c)), cap)))
        v.ensure(st, 'a failed buffer holds nothing', IMP(failed, EQ(c, 0)))
        if is_null(d) is True:
            v.ensure(st, 'storage for its capacity', EQ(c, 0))
        else:
            v.ensure(st, 'storage for its capacity', AND(getattr(d.reg, 'heap', False), EQ(d.off, 0), ULE(Z64(c), bv(d.reg.size, 64))))
        s1 = st.clone()
        for s2, _ in v.call(r'^hogl::ostrbuf::~ostrbuf\(\)$', [p], s1):
            v.ensure(s2, 'the storage is released', not s2.ghost.get('heap'))
    v.cover_exists('buffered', [(st, AND(cap != 0, EQ(v.get(st, p, OB, '_failed'), 0))) for st, _ in outs])
    v.cover_exists('unbuffered', [(st, cap == 0) for st, _ in outs])
    v = V('ostrbuf::failure')
    offs(v)
    b = Buf(v, OB, None)
    v.model(r'^strncat$', strncat)
    s0 = v.st.clone()
    for st, _ in v.call(r'^hogl::ostrbuf::failure\(', [b.p, Ptr(v.ex.region('message', 64), 0)]):
        v.ensure(st, 'marked as failed', EQ(b.get(st, '_failed'), 1))
        v.unchanged(st, s0, b.p, OB, except_=['_failed', '_error'])
        v.cover('returns', st)
    for st, r in v.call(r'^hogl::ostrbuf::failed\(\) const$', [b.p], s0.clone()):
        v.ensure(st, 'failed() tells', EQ(boolv(r), b.failed0))
    v = V('ostrbuf_null::do_flush')
    offs(v)
    b = Buf(v, 'hogl::ostrbuf_null', '@_ZTVN4hogl12ostrbuf_nullE')
    thrown = []
    v.model(r'^std::(logic_error|runtime_error)::', lambda ex, st, a, c: None)
    v.ex.on_throw = [lambda ex, st, *a: thrown.append(st.clone())]
    src, n = b.new()
    s0 = v.st.clone()
    for st, _ in v.call(r'^hogl::ostrbuf_null::do_flush\(', [b.p, src, n]):
        v.ensure(st, 'the null buffer empties itself', AND(EQ(b.get(st, '_size'), 0), NOT(b.failed0)))
        v.unchanged(st, s0, b.p, OB, except_=['_size'])
    for st in thrown:
        v.ensure(st, 'and throws in the failed state only', b.failed0)

def task_file(V):
    OF = 'hogl::output_file'
    for pieces in (1, 2):
        v = V('output_file::writev(%d)' % pieces)
        offs(v)
        b = Buf(v, OB, None, cap0=False)
        v.assume(NOT(b.failed0))
        src, n = b.new()
        if pieces < 2:
            v.assume(b.size0 == 0)
        if pieces < 1:
            v.assume(n == 0)
        of = v.obj(OF, 'output_file')
        fd = v.sym('fd', 32)
        v.set(v.st, of, OF, '_fd', fd)
        mk = lib.lockkey(v.fptr(of, OF, '_write_mutex'))
        def cur(st):
            v.ex.oblige(st, 'the descriptor is used under the write lock', mk in lib.held(st), 'lock')
            return fd
        os_models(b, cur)
        v.loop(r'', LoopSpec(cands=b.inv(), ghost=('pos', 'err'), concrete=True))
        iov = v.obj(OB, 'iov')
        q = [(src, n)] if pieces == 1 else [(b.data, Z64(b.size0)), (src, n)]
        for j, (x, l) in enumerate(q[:pieces]):
            v.ex.poke(v.st, iov.plus(16 * j), 8, x); v.ex.poke(v.st, iov.plus(16 * j + 8), 8, simp(l))
        s0 = v.st.clone()
        outs = v.call(r'^hogl::output_file::writev\(', [of, iov, pieces])
        for st, ret in outs:
            v.ensure(st, 'all pieces are written, in order, unless the file fails', OR(st.ghost['err'], AND(EQ(bv(st.ghost['pos'], 64), b.total), EQ(ret, b.total))))
            v.ensure(st, 'a failure is reported', IMP(st.ghost['err'], EQ(ret, MASK[64])))
            v.ensure(st, 'the locks are released', not lib.held(st))
        v.cover_exists('written', [(st, NOT(st.ghost['err'])) for st, _ in outs])
    v = V('output_file::write')
    offs(v)
    b = Buf(v, OB, None)
    v.assume(b.size0 == 0)
    src, n = b.new()
    of = v.obj(OF, 'output_file')
    v.st.ghost.update(pos=z3.BitVecVal(0, 64))
    res = v.sym('result', 64)
    def writev(ex, st, a, c):
        ex.oblige(st, 'this file', ptr_eq(a[0], of), 'pre')
        if not isc(a[2]):
            raise Unsupported('number of pieces')
        for j in range(a[2]):
            x, l = ex.peek(st, a[1].plus(16 * j), 8, True), ex.peek(st, a[1].plus(16 * j + 8), 8)
            b.accept(st, x, l)
        return res
    v.model(r'^hogl::output_file::writev\(', writev)
    for st, ret in v.call(r'^hogl::output_file::write\(', [of, src, n]):
        v.ensure(st, 'everything is written and the result passed on', AND(EQ(bv(st.ghost['pos'], 64), n), EQ(ret, res)))
        v.cover('returns', st)

TASKS = [('puts', task_puts), ('ctor', task_ctor), ('fd', flushtask('hogl::ostrbuf_fd', '@_ZTVN4hogl10ostrbuf_fdE', fd_extra)), ('stdio', flushtask('hogl::ostrbuf_stdio', '@_ZTVN4hogl13ostrbuf_stdioE', stdio_extra)), ('tee', task_tee),
         ('ostrbuf_file', flushtask('hogl::ostrbuf_file', '@_ZTVN4hogl12ostrbuf_fileE', file_extra)), ('file', task_file)]
REPLAY = {'src': 'R08.cc', 'timeout': 120, 'libs': ['-Wl,--wrap=write,--wrap=writev'], 'flags': ['-fsanitize=address,undefined', '-fno-sanitize=nonnull-attribute', '-fno-sanitize-recover=undefined', '-fno-omit-frame-pointer']}
