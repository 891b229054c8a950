from ringlib import *
from hv.spec import *
from hv import lib
import z3

UNITS = {'args': '$VERIF/units/args.cc', 'post': '$REPO/src/post.cc'}
TRUSTED = ['pthread_mutex contracts', 'the time source callback returns some timestamp; time stamps read one after the other do not decrease (time source contract)',
           'argument capture (populate, set_args) by the contracts proved in R05; ringbuf::push_commit by the contract proved in R01/R04; area::test by the contract proved in R12']
ASSUMPTIONS = ['other writers of a shared ring post through the same functions (rely); a ring posted to without lock has one writer']
REC, ARG = 'hogl::record', 'hogl::arg'
Z = lambda x: z3.ZeroExt(32, x) if not isc(x) else x
POST = [('post(ring)', '@hv_post_r', True, True, False), ('post(TLS ring)', '@hv_post_t', True, True, True), ('post_unlocked(ring)', '@hv_postu_r', True, False, False),
        ('post_unlocked(TLS ring)', '@hv_postu_t', True, False, True), ('push', '@hv_push', False, True, False), ('push_unlocked', '@hv_pushu', False, False, False)]

class Env:
    """ring, area, time source and the contracts used by the posting functions"""
    def __init__(self, v, locking):
        self.v = v
        ex = v.ex
        r = self.r = Ring(v)
        self.locking = locking
        v.assume(z3.ULE(1, r.C))
        self.troom = v.sym('tailroom', 32)
        v.set(v.st, r.p, RB, '_rec_tailroom', self.troom)
        v.assume(z3.UGE(self.troom, 128)); v.assume((z3.BitVecVal(1, 32) << r.shift) == self.troom + v.off(REC, 'argval')[0])
        ts = self.ts = v.obj('hogl::timesource', 'timesource')
        v.set(v.st, ts, 'hogl::timesource', '_callback', fnptr('@hv_ts_callback'))
        v.set(v.st, r.p, RB, '_timesource', ts)
        v.set(v.st, r.p, RB, '_block_active', 0)
        self.area = v.obj('hogl::area', 'area')
        self.sect = v.sym('section', 32)
        self.enabled = v.sym('enabled', 'bool')
        self.stamp_n = 0
        self.mutex = v.fptr(r.p, RB, '_mutex')
        moff = self.mutex.off
        shared = self.shared = (r.flags & SHARED) != 0
        def locked(st):
            return any(k[1] == r.p.reg.id and k[3] == str(moff) for k in lib.held(st))
        self.locked = locked
        def guarded(ex, st, what):
            if locking:
                ex.oblige(st, what + ' of a shared ring only under its lock', OR(NOT(shared), locked(st)), 'lock')
        def test(ex, st, a, c):
            ex.oblige(st, 'asks the given area for the given section', AND(ptr_eq(a[0], self.area), EQ(a[1], self.sect)), 'pre')
            st.ghost['tested'] = True
            return self.enabled
        v.model(r'^hogl::area::test\(unsigned int\) const$', test)
        def stamp(ex, st, a, c):
            ex.oblige(st, "the ring's own time source is asked", ptr_eq(a[-1], ts), 'pre')
            guarded(ex, st, 'time stamp taken for a record')
            t = ex.fresh('ts', 64)
            st.ghost['stamps'] = st.ghost.get('stamps', ()) + (t,)
            if len(a) == 2:             # returned through a hidden pointer
                ex.poke(st, a[0], 8, t)
                return None
            return t
        v.model(r'^hv_ts_callback$', stamp)
        def lock(ex, st, a, c):
            ret = lib._lock(ex, st, a, c)
            if ptr_eq(a[0], self.mutex) is True:
                ex.oblige(st, 'a ring that is not shared is not locked', shared, 'lock')
                st.ghost['nlocks'] = st.ghost.get('nlocks', 0) + 1
                # other writers may have posted before
                t, s, d = ex.fresh('tail', 32), ex.fresh('seq', 64), ex.fresh('drop', 64)
                st.assume(z3.ULE(t, r.C))
                v.set(st, r.p, RB, '_tail', t); v.set(st, r.p, RB, '_seqnum', s); v.set(st, r.p, RB, '_dropcnt', d)
                st.ghost['T'] = t; st.ghost['S'] = s; st.ghost['D'] = d
            return ret
        v.model(r'^pthread_mutex_lock$', lock)
        v.st.ghost.update(T=r.t0, S=r.seq0, D=r.drop0)
        def commit(ex, st, a, c):
            ex.oblige(st, 'commits to the ring it filled', ptr_eq(a[0], r.p), 'pre')
            ex.oblige(st, 'with the write barrier', a[1] is True or EQ(a[1], True), 'pre')
            guarded(ex, st, 'commit')
            ex.oblige(st, 'commits once', st.ghost.get('commits', 0) == 0, 'post')
            st.ghost['commits'] = st.ghost.get('commits', 0) + 1
            st.ghost['at_commit'] = (st.m(r.slots.reg), v.get(st, r.p, RB, '_seqnum'), v.get(st, r.p, RB, '_tail'))
            # contract of push_commit: tail or drop count advance
            t = v.get(st, r.p, RB, '_tail'); d = v.get(st, r.p, RB, '_dropcnt')
            full = ex.fresh('full', 'bool')
            v.set(st, r.p, RB, '_tail', simp(z3.If(full, bv(t, 32), (bv(t, 32) + 1) & r.C)))
            v.set(st, r.p, RB, '_dropcnt', simp(z3.If(full, bv(d, 64) + 1, bv(d, 64))))
            return None
        v.model(r'^hogl::ringbuf::push_commit\(bool\)$', commit)
        def argcontent(st, p):
            return tuple(v.get(st, p, ARG, f) for f in ('type', 'val', 'len'))
        self.complexn = v.sym('complex', 32)
        def populate(ex, st, a, c):
            st.ghost[('pack', a[0].reg.id)] = tuple(argcontent(st, p) for p in a[1:])
            return self.complexn
        v.model(r'^hogl::argpack::populate\(', populate)
        def setargs(ex, st, a, c):
            this, room = a[0], a[1]
            if len(a) == 3:
                args = st.ghost.get(('pack', a[2].reg.id), 'unknown pack')
            else:
                args = tuple(argcontent(st, p) for p in a[2:])
            st.ghost['args'] = st.ghost.get('args', ()) + ((this, room, args),)
            guarded(ex, st, 'arguments are stored into the slot')
            ex.oblige(st, 'arguments are stored before the commit', st.ghost.get('commits', 0) == 0, 'post')
            return None
        v.model(r'^hogl::record::set_args\(', setargs)
        def on_load(ex, st, p, n, i):
            if p.reg is r.p.reg and isc(p.off) and p.off in (r.offs['_tail'][0], r.offs['_seqnum'][0]):
                guarded(ex, st, 'write position and sequence number are read')
        def on_store(ex, st, p, n, val, i):
            if p.reg is r.p.reg and isc(p.off) and p.off in (r.offs['_seqnum'][0], r.offs['_tail'][0], r.offs['_dropcnt'][0]):
                guarded(ex, st, 'sequence number is changed')
            if p.reg is r.slots.reg:
                guarded(ex, st, 'slot is written')
                ex.oblige(st, 'the slot is not written after the commit', st.ghost.get('commits', 0) == 0, 'post')
        ex.on_load.append(on_load)
        ex.on_store.append(on_store)
    def check(self, st, s0, args, done=True, filled=True):
        """exactly one record was filled (and committed) as specified"""
        v, r = self.v, self.r
        T, S = st.ghost['T'], st.ghost['S']
        h = lambda f: v.off(REC, f)[0]
        base = simp(z3.ZeroExt(32, bv(T, 32)) << z3.ZeroExt(32, r.shift))
        m = st.ghost['at_commit'][0] if st.ghost.get('commits') else st.m(r.slots.reg)
        st_ = st.ghost.get('stamps', ())
        v.ensure(st, 'one time stamp is taken', len(st_) == 1)
        v.ensure(st, 'one sequence number is used', EQ(v.get(st, r.p, RB, '_seqnum'), simp(bv(S, 64) + 1)))
        rd = lambda o, n: m.read(None, simp(bv(base, 64) + o), n)
        v.ensure(st, 'record carries its area', EQ(rd(h('area'), 8), self.area.addr()))
        if st_:
            v.ensure(st, 'record carries the time stamp', EQ(rd(h('timestamp'), 8), st_[0]))
        w = bv(rd(16, 8), 64)
        v.ensure(st, 'record carries the sequence number', z3.Extract(51, 0, w) == z3.Extract(51, 0, bv(S, 64)))
        v.ensure(st, 'record carries the section', z3.Extract(63, 52, w) == z3.Extract(11, 0, self.sect))
        if args is not None:
            L = st.ghost.get('args', ())
            v.ensure(st, 'arguments are captured once', len(L) == 1)
            if L:
                this, room, got = L[0]
                v.ensure(st, 'into this slot with the payload room of the ring', AND(ptr_eq(this, Ptr(r.slots.reg, base)), EQ(room, self.troom)))
                v.ensure(st, 'the arguments of the caller, in order', got == args if isinstance(args, str) or isinstance(got, str) else (AND(*[EQ(x, y) for a, b in zip(got, args) for x, y in zip(a, b)]) if len(got) == len(args) else False))
        if done:
            v.ensure(st, 'committed once', st.ghost.get('commits', 0) == 1)
            v.ensure(st, 'the lock is released', not lib.held(st))
        # nothing outside the slot header was written here
        k = v.fresh('k', 64)
        a, b = m.read(None, k, 1), s0.m(r.slots.reg).read(None, k, 1)
        v.ensure(st, 'no byte outside the header of that slot is written', IMP(AND(ULT(k, r.slots.reg.size), z3.UGE(k - bv(base, 64), 32)), EQ(a, b)))
        v.unchanged(st, s0, r.p, RB, except_=['_tail', '_seqnum', '_dropcnt', '_mutex'])
        v.frame_regions(st, s0, [r.p.reg, r.slots.reg])

def mkargs(v):
    out = []
    for k in range(16):
        a = v.obj(ARG, 'arg%d' % k)
        c = []
        for f, w in (('type', 32), ('val', 64), ('len', 32)):
            x = v.sym('arg%d.%s' % (k, f), w)
            v.set(v.st, a, ARG, f, x)
            c.append(x)
        out.append((a, tuple(c)))
    return out

def entry(name, sym, gated, locking, tls):
    def f(V):
        v = V(name)
        e = Env(v, locking)
        args = mkargs(v)
        if not gated:
            v.assume(e.enabled)
        if tls:
            g = v.buf('tls_ring', 8, elem=8)
            v.ex.poke(v.st, g, 8, e.r.p)
            v.model(r'thread-local wrapper routine for hogl::tls::_ring', lambda ex, st, a, c: g)
            v.model(r'^hogl::tls::ring\(\)$', lambda ex, st, a, c: e.r.p)
        s0 = v.st.clone()
        outs = v.call(sym, ([] if tls else [e.r.p]) + [e.area, e.sect] + [a for a, _ in args])
        for st, _ in outs:
            posted = bool(st.ghost.get('commits') or st.ghost.get('args') or st.ghost.get('stamps'))
            if gated:
                v.ensure(st, 'the section decides', e.enabled if posted else NOT(e.enabled))
            if not posted:
                v.ensure(st, 'a disabled post leaves the ring alone', AND(EQ(v.get(st, e.r.p, RB, '_seqnum'), e.r.seq0), EQ(v.get(st, e.r.p, RB, '_tail'), e.r.t0), EQ(v.get(st, e.r.p, RB, '_dropcnt'), e.r.drop0), st.ghost.get('nlocks', 0) == 0))
                v.unchanged(st, s0, e.r.p, RB)
                v.frame_regions(st, s0, [])
                continue
            e.check(st, s0, tuple(c for _, c in args))
            if locking:
                v.ensure(st, 'a shared ring is locked once for the whole record', st.ghost.get('nlocks', 0) == 1 if st.ghost.get('nlocks') else NOT(e.shared))
        if gated:
            v.cover_exists('disabled', [(st, NOT(e.enabled)) for st, _ in outs])
        v.cover_exists('simple arguments', [(st, AND(e.enabled, e.complexn == 0)) for st, _ in outs])
        v.cover_exists('complex arguments', [(st, AND(e.enabled, e.complexn != 0)) for st, _ in outs])
        if locking:
            v.cover_exists('shared', [(st, AND(e.enabled, e.shared)) for st, _ in outs])
    return f

def impl(V):
    for nm, locking in (('unlocked', False), ('locked', True)):
        v = V('post_impl::' + nm)
        rx = r'^hogl::post_impl::%s\(' % nm
        if not v.has(rx):
            v.ensure(v.st, 'no such helper', True)
            continue
        e = Env(v, locking)
        pk = v.obj('hogl::argpack', 'pack')
        v.st.ghost[('pack', pk.reg.id)] = 'the given pack'
        s0 = v.st.clone()
        outs = v.call(rx, [e.r.p, e.area, e.sect, pk])
        for st, _ in outs:
            e.check(st, s0, 'the given pack')
        v.cover_exists('shared', [(st, e.shared) for st, _ in outs])
        for part in ('begin', 'finish'):
            v = V('post_impl::%s_%s' % (part, nm))
            rx = r'^hogl::post_impl::%s_%s\(' % (part, nm)
            if not v.has(rx):
                v.ensure(v.st, 'no such helper', True)
                continue
            e = Env(v, locking)
            if part == 'begin':
                s0 = v.st.clone()
                for st, ret in v.call(rx, [e.r.p, e.area, e.sect]):
                    e.check(st, s0, None, done=False)
                    v.ensure(st, 'returns the slot', ptr_eq(ret, Ptr(e.r.slots.reg, simp(z3.ZeroExt(32, bv(st.ghost['T'], 32)) << z3.ZeroExt(32, e.r.shift)))))
                    v.ensure(st, 'a shared ring stays locked until the record is finished', EQ(boolv(e.locked(st)), e.shared) if locking else not lib.held(st))
                    v.ensure(st, 'not yet committed', not st.ghost.get('commits'))
                    v.cover('returns', st)
            elif locking:
                for sh in (True, False):
                    e = Env(V('post_impl::finish_locked(%s)' % ('shared' if sh else 'not shared')), True)
                    v = e.v
                    v.assume(e.shared if sh else NOT(e.shared))
                    if sh:
                        lib._lock(v.ex, v.st, [e.mutex], None)
                    for st, ret in v.call(rx, [e.r.p]):
                        v.ensure(st, 'committed once', st.ghost.get('commits') == 1)
                        v.ensure(st, 'lock released', not lib.held(st))
                        v.cover('returns', st)
            else:
                for st, ret in v.call(rx, [e.r.p]):
                    v.ensure(st, 'committed once', st.ghost.get('commits') == 1)
                    v.ensure(st, 'no lock involved', not lib.held(st) and not st.ghost.get('nlocks'))
                    v.cover('returns', st)

def locks(V):
    for what in ('lock', 'unlock'):
        v = V('ringbuf::' + what)
        r = Ring(v)
        m = v.fptr(r.p, RB, '_mutex')
        sh = (r.flags & SHARED) != 0
        is_ = lambda st: any(k[1] == r.p.reg.id and k[3] == str(m.off) for k in lib.held(st))
        if what == 'unlock':
            v.st.ghost['exp'] = True
            s1 = v.st.clone(); s1.assume(sh); lib._lock(v.ex, s1, [m], None)
            s2 = v.st.clone(); s2.assume(NOT(sh))
            starts = [s1, s2]
        else:
            starts = [v.st]
        for s in starts:
            for st, _ in v.call(r'^hogl::ringbuf::%s\(\)$' % what, [r.p], s):
                if what == 'lock':
                    v.ensure(st, 'exactly a shared ring is locked', EQ(boolv(is_(st)), sh))
                else:
                    v.ensure(st, 'unlocked', not is_(st))
                v.cover('returns', st)
    v = V('ringbuf::inc_seqnum')
    r = Ring(v)
    s0 = v.st.clone()
    for st, x in v.call(r'^hogl::ringbuf::inc_seqnum\(\)$', [r.p]):
        v.ensure(st, 'returns the next number and advances by one', AND(EQ(x, r.seq0), EQ(r.f(st, '_seqnum'), simp(r.seq0 + 1))))
        v.unchanged(st, s0, r.p, RB, except_=['_seqnum'])
    v = V('ringbuf::inc_dropcnt')
    r = Ring(v)
    s0 = v.st.clone()
    for st, x in v.call(r'^hogl::ringbuf::inc_dropcnt\(\)$', [r.p]):
        v.ensure(st, 'advances by one', EQ(r.f(st, '_dropcnt'), simp(r.drop0 + 1)))
        v.unchanged(st, s0, r.p, RB, except_=['_dropcnt'])

TASKS = [(n, entry(n, s, g, l, t)) for n, s, g, l, t in POST] + [('impl', impl), ('locks', locks)]
REPLAY = {'src': 'R06.cc', 'timeout': 120}
