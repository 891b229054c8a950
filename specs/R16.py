from registry import *
import importlib
_r13 = importlib.import_module('R13')
from ringlib import *
UNITS = dict(_r13.UNITS, flush='$REPO/src/flush.cc', timesource='$REPO/src/timesource.cc')
TRUSTED = ['usleep sleeps at least as long as asked (no signal interrupts it)', 'mutex contracts', 'std::map contract (iteration visits every entry once)',
           'ringbuf::push_commit by the contract proved in R01 and R04', 'the time source callback returns some timestamp']
ASSUMPTIONS = ['the engine acknowledges a record only by engine::flush_record (the only caller of record::ack)', 'records reach flush_record in the order of their ring (R01, R07)',
               'the new time source outlives its use; a null time source is not posted by hand']
REC = 'hogl::record'
ACK = 0x7e7f
UGE = lambda a, b: ULE(b, a)
def islocal(st, val):
    if isinstance(val, Ptr):
        return bool(getattr(val.reg, 'local', False))
    if isc(val) or not z3.is_expr(val):
        return False
    bases = {m.reg.base.get_id() for m in st.mem.values() if getattr(m.reg, 'local', False) and z3.is_expr(m.reg.base)}
    todo, seen = [val], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if x.get_id() in bases:
            return True
        todo += x.children()
    return False
class Req:
    """a caller of flush/change_timesource: the ring's writer, with the reader and the acknowledging engine as rely"""
    def __init__(self, v):
        self.v = v
        ex = v.ex
        r = self.r = Ring(v)
        ts = self.ts = v.obj('hogl::timesource', 'timesource')
        v.set(v.st, ts, 'hogl::timesource', '_callback', fnptr('@hv_ts_callback'))
        v.set(v.st, r.p, RB, '_timesource', ts)
        v.st.ghost['nobar'] = True
        v.st.ghost.update(seen_head=r.h0, S=r.seq0, T=r.t0, acked=False, slept=z3.BitVecVal(0, 64), commits=0)
        v.st.ghost[('at',)] = None
        self.mutex = v.fptr(r.p, RB, '_mutex')
        moff = self.mutex.off
        shared = self.shared = (r.flags & SHARED) != 0
        self.locked = lambda st: any(k[1] == r.p.reg.id and k[3] == str(moff) for k in lib.held(st))
        self.A0 = v.off(REC, 'argval')[0]
        v.assume(UGE(z3.BitVecVal(1, 32) << r.shift, v.size(REC)))
        def guarded(ex, st, what):
            ex.oblige(st, what + ' of a shared ring only under its lock', OR(NOT(shared), self.locked(st)), 'lock')
        r.as_writer()
        def on_load(ex, st, p, n, i):
            if p.reg is r.p.reg and isc(p.off) and p.off in (r.offs['_tail'][0], r.offs['_seqnum'][0]):
                guarded(ex, st, 'write position and sequence number are read')
            if p.reg is r.slots.reg and st.ghost['commits']:
                ex.oblige(st, 'after the commit only the acknowledgement of this record is read', AND(n == 8, EQ(bv(p.off, 64), simp(self.base(st) + self.A0))), 'shared')
                ex.oblige(st, 'the acknowledgement is read as a shared (volatile/atomic) location', bool(i.volatile or 'atomic' in i.flags), 'shared')
                b = OR(st.ghost['acked'], ex.fresh('ackd', 'bool'))
                ex.poke(st, p, 8, z3.If(boolv(b), z3.BitVecVal(ACK, 64), z3.BitVecVal(0, 64)))
                st.ghost['acked'] = b
        def on_store(ex, st, p, n, val, i):
            if p.reg is r.p.reg and isc(p.off) and p.off in (r.offs['_seqnum'][0], r.offs['_tail'][0], r.offs['_dropcnt'][0]):
                guarded(ex, st, 'sequence number and write position are changed')
            if p.reg is r.slots.reg:
                guarded(ex, st, 'slot is written')
                ex.oblige(st, 'the slot is not written after the commit', not st.ghost['commits'], 'post')
                ex.oblige(st, 'no address of a local object is stored in the ring', not islocal(st, val), 'post')
        ex.on_load.append(on_load)
        ex.on_store.append(on_store)
        def lock(ex, st, a, c):
            ret = lib._lock(ex, st, a, c)
            if ptr_eq(a[0], self.mutex) is True:
                st.ghost['nlocks'] = st.ghost.get('nlocks', 0) + 1
                t, s, d = ex.fresh('tail', 32), ex.fresh('seq', 64), ex.fresh('drop', 64)
                st.assume(z3.ULE(t, r.C))
                v.set(st, r.p, RB, '_tail', t); v.set(st, r.p, RB, '_seqnum', s); v.set(st, r.p, RB, '_dropcnt', d)
                st.ghost['T'] = t; st.ghost['S'] = s
            return ret
        v.model(r'^pthread_mutex_lock$', lock)
        def stamp(ex, st, a, c):
            ex.oblige(st, "the ring's own time source is asked", ptr_eq(a[-1], ts), 'pre')
            guarded(ex, st, 'time stamp taken')
            t = ex.fresh('ts', 64)
            st.ghost[('stamp',)] = t
            if len(a) == 2:
                ex.poke(st, a[0], 8, t)
                return None
            return t
        v.model(r'^hv_ts_callback$', stamp)
        def commit(ex, st, a, c):
            ex.oblige(st, 'commits to the ring it filled', ptr_eq(a[0], r.p), 'pre')
            ex.oblige(st, 'with the write barrier', a[1] is True or EQ(a[1], True), 'pre')
            guarded(ex, st, 'commit')
            ex.oblige(st, 'commits once', not st.ghost['commits'], 'post')
            r.step_head(st)
            t, d = v.get(st, r.p, RB, '_tail'), v.get(st, r.p, RB, '_dropcnt')
            ex.oblige(st, 'a request is pushed only where there is room: it is never dropped', NE(bv(t, 32), bv(r.head(st), 32)), 'post')
            st.ghost[('at',)] = (st.m(r.slots.reg), v.get(st, r.p, RB, '_seqnum'), t)
            st.ghost['commits'] = 1
            v.set(st, r.p, RB, '_tail', simp((bv(t, 32) + 1) & r.C))
            ex.poke(st, Ptr(r.slots.reg, simp(self.base(st) + self.A0)), 8, ex.fresh('ack', 64))
            return None
        v.model(r'^hogl::ringbuf::push_commit\(bool\)$', commit)
        def usleep(ex, st, a, c):
            st.ghost['slept'] = simp(bv(st.ghost['slept'], 64) + Z64(a[0]))
            return ex.fresh('usleep', 32)
        v.model(r'^usleep$', usleep)
        def nano(ex, st, a, c):
            s, n = bv(ex.peek(st, a[0], 8), 64), bv(ex.peek(st, a[0].plus(8), 8), 64)
            st.ghost['slept'] = simp(bv(st.ghost['slept'], 64) + s * 1000000 + z3.UDiv(n, z3.BitVecVal(1000, 64)))
            return 0
        v.model(r'^nanosleep$', nano)
        self.to = v.sym('timeout', 32)
        def inv(ex, st, lv):
            return [('the lock is kept', EQ(boolv(self.locked(st)), shared)),
                    ('read position stays in range', ULE(r.head(st), r.C)),
                    ('time slept stays in range', ULE(bv(st.ghost['slept'], 64), z3.BitVecVal(1 << 40, 64)))]
        def cands(ex, st, lv):
            out = [('write position unchanged', EQ(r.tail(st), st.ghost['T'])), ('drop count', EQ(r.f(st, '_dropcnt'), r.drop0))]
            out.append(('sequence number advanced', EQ(r.f(st, '_seqnum'), simp(bv(st.ghost['S'], 64) + 1))))
            out.append(('sequence number unchanged', EQ(r.f(st, '_seqnum'), st.ghost['S'])))
            out.append(('write position advanced', EQ(r.tail(st), simp((bv(st.ghost['T'], 32) + 1) & r.C))))
            out.append(('not acked', NOT(st.ghost['acked'])))
            sl = bv(st.ghost['slept'], 64)
            big = lambda x: ULE(x, z3.BitVecVal(1 << 33, 64))
            out.append(('sleep', ULE(sl, Z64(self.to) + 1000)))
            def say(key, x):
                y = bv(x, 64) if isc(x) else Z64(x) if x.size() <= 64 else None
                if y is None:
                    return
                out.append(('%s is the time slept' % (key,), EQ(y, sl)))
                out.append(('%s is at most the time slept' % (key,), ULE(y, sl)))
                out.append(('%s is the time left' % (key,), EQ(simp(y + sl), Z64(self.to))))
                out.append(('%s covers the time left' % (key,), AND(ULE(y, Z64(self.to)), UGE(simp(y + sl), Z64(self.to)))))
                out.append(('%s counts the sleeps' % (key,), AND(ULE(y, Z64(self.to)), ULE(simp(y * 1000), sl))))
            for key, x in lv.ints():
                say(key, x)
            for rid, m in st.mem.items():
                if getattr(m.reg, 'local', False) and m.reg.size in (4, 8) and rid not in st.dead:
                    x = m.read(None, 0, m.reg.size)
                    if not isinstance(x, Ptr):
                        say('local %s' % m.reg.name, x)
            return out
        def havoc(ex, st, e):
            v.set(st, r.p, RB, '_head', ex.fresh('h', 32))
        v.loop(r'', LoopSpec(inv=inv, cands=cands, ghost=('acked', 'slept', 'seen_head'), havoc=havoc))
    def base(self, st):
        t = st.ghost[('at',)][2]
        return bv(self.r.slot(t), 64)

def request(name, rx, typ, withts):
    def f(V):
        v = V(name)
        q = Req(v)
        r = q.r
        new = v.obj('hogl::timesource', 'new_timesource') if withts else None
        s0 = v.st.clone()
        outs = v.call(rx, [r.p] + ([new] if withts else []) + [q.to])
        for st, ret in outs:
            g = st.ghost
            v.ensure(st, 'the lock is released', not lib.held(st))
            v.ensure(st, 'a shared ring is locked once, another not at all', EQ(boolv(g.get('nlocks', 0) == 1), q.shared) if g.get('nlocks', 0) < 2 else False)
            c = g['commits']
            noack = AND(withts, EQ(q.to, 0)) if withts else False
            v.ensure(st, 'success only after the request was stored and acknowledged', IMP(ret, AND(c == 1, OR(g['acked'], noack))))
            v.ensure(st, 'a timeout only after the requested time', IMP(NOT(ret), UGE(bv(g['slept'], 64), Z64(q.to))))
            d = simp(bv(r.f(st, '_seqnum'), 64) - bv(g['S'], 64))
            v.ensure(st, 'at most one sequence number is used', ULE(d, 1))
            if c:
                m, seq, t = g[('at',)]
                v.ensure(st, 'stored at the write position', EQ(t, g['T']))
                b = q.base(st)
                rd = lambda o, n: m.read(None, simp(b + o), n)
                o = lambda f: v.off(REC, f)[0]
                w = bv(rd(16, 8), 64)
                v.ensure(st, 'a special record of this kind', AND(EQ(rd(o('area'), 8), 0), z3.Extract(63, 52, w) == 0xfff, EQ(rd(o('argtype'), 8), typ)))
                v.ensure(st, 'with the next sequence number, used once', AND(z3.Extract(51, 0, w) == z3.Extract(51, 0, bv(g['S'], 64)), EQ(d, 1)))
                v.ensure(st, 'with its time stamp', EQ(rd(o('timestamp'), 8), g.get(('stamp',), v.fresh('none', 64))))
                v.ensure(st, 'not acknowledged yet when stored', NE(rd(q.A0, 8), ACK))
                if withts:
                    v.ensure(st, 'with the new time source', EQ(rd(q.A0 + 8, 8), new.addr()))
                v.ensure(st, 'advances the write position by one', EQ(r.tail(st), simp((bv(t, 32) + 1) & r.C)))
                k = v.fresh('k', 64)
                x, y = m.read(None, k, 1), s0.m(r.slots.reg).read(None, k, 1)
                v.ensure(st, 'no byte outside that slot is written', IMP(AND(ULT(k, r.slots.reg.size), UGE(k - b, v.size(REC))), EQ(x, y)))
            v.unchanged(st, s0, r.p, RB, except_=['_head', '_tail', '_seqnum', '_dropcnt', '_mutex'])
            v.frame_regions(st, s0, [r.p.reg, r.slots.reg])
        v.cover_exists('success', [(st, AND(ret, q.shared)) for st, ret in outs])
        v.cover_exists('timeout', [(st, AND(NOT(ret), NOT(q.shared))) for st, ret in outs])
        if withts:
            v.cover_exists('no wait', [(st, AND(ret, q.to == 0)) for st, ret in outs])
    return f

def task_tls(V):
    for withts in (False, True):
        v = V('change_timesource(TLS ring)' if withts else 'flush(TLS ring)')
        ring = v.obj(RB, 'ring')
        to = v.sym('timeout', 32)
        ret0 = v.sym('result', 'bool')
        g = v.buf('tls_ring', 8, elem=8)
        v.ex.poke(v.st, g, 8, ring)
        v.model(r'thread-local wrapper routine for hogl::tls::_ring', lambda ex, st, a, c: g)
        v.model(r'^hogl::tls::ring\(\)$', lambda ex, st, a, c: ring)
        v.st.ghost[('calls',)] = ()
        def call(ex, st, a, c):
            st.ghost[('calls',)] += (tuple(a),)
            return ret0
        if withts:
            tss = fam(v.ex, 'timesource', v.size('hogl::timesource'))
            t = Ptr(tss, 0, v.sym('new', 64))
            v.model(r'^hogl::change_timesource\(hogl::ringbuf\*', call)
            dname = [n for m in v.mods for n in m.globals if n == '@_ZN4hogl18default_timesourceE'] if hasattr(v.mods[0], 'globals') else []
            outs = v.call(r'^hogl::change_timesource\(hogl::timesource\*, unsigned int\)$', [t, to])
        else:
            v.model(r'^hogl::flush\(hogl::ringbuf\*', call)
            outs = v.call(r'^hogl::flush\(unsigned int\)$', [to])
        for st, ret in outs:
            L = st.ghost[('calls',)]
            v.ensure(st, 'one request, its answer is returned', AND(len(L) == 1, EQ(boolv(ret), ret0)))
            if len(L) != 1:
                continue
            a = L[0]
            v.ensure(st, "to the ring of this thread, with the caller's timeout", AND(ptr_eq(a[0], ring), EQ(a[-1], to)))
            if withts:
                d = 'default_timesource' in a[1].reg.name or 'default_timesource' in str(getattr(a[1].reg, 'glob', ''))
                v.ensure(st, 'with the given time source, the default one instead of none', AND(IMP(NOT(is_null(t)), ptr_eq(a[1], t)), IMP(is_null(t), d)))
        v.cover_exists('returns', [(st, True) for st, _ in outs])
        if withts:
            v.cover_exists('none given', [(st, is_null(t)) for st, _ in outs])

def task_record(V):
    for sp in (1, 0):
        v = V('record::special(...)' if sp else 'record::special(), ack(), acked()')
        r = v.obj(REC, 'record')
        o = lambda f: v.off(REC, f)[0]
        a0 = o('argval')
        if sp:
            t, x, y = v.sym('type', 32), v.sym('arg1', 64), v.sym('arg2', 64)
            s0 = v.st.clone()
            outs = v.call(r'^hogl::record::special\(unsigned int, unsigned long, unsigned long\)$', [r, t, x, y])
            for st, _ in outs:
                rd = lambda f: v.ex.peek(st, r.plus(f), 8, False)
                w, w0 = bv(rd(16), 64), bv(v.ex.peek(s0, r.plus(16), 8, False), 64)
                v.ensure(st, 'special, of this type, with these values, not acknowledged', AND(EQ(rd(o('area')), 0), z3.Extract(63, 52, w) == 0xfff, EQ(bv(rd(o('argtype')), 64), Z64(t)), EQ(rd(a0 + 8), x), EQ(rd(a0 + 16), y), NE(rd(a0), ACK)))
                v.ensure(st, 'sequence number and time stamp kept', AND(z3.Extract(51, 0, w) == z3.Extract(51, 0, w0), EQ(rd(8), v.ex.peek(s0, r.plus(8), 8, False))))
                v.cover('returns', st)
            continue
        s0 = v.st.clone()
        rd = lambda st, f: v.ex.peek(st, r.plus(f), 8, False)
        for st, ret in v.call(r'^hogl::record::special\(\)$', [r]):
            v.ensure(st, 'special means no area and the reserved section', EQ(boolv(ret), AND(EQ(rd(s0, o('area')), 0), z3.Extract(63, 52, bv(rd(s0, 16), 64)) == 0xfff)))
            v.unchanged(st, s0, r, REC)
        for st, ret in v.call(r'^hogl::record::acked\(\) const$' if v.has(r'^hogl::record::acked\(\) const$') else r'^hogl::record::acked\(\)$', [r], s0.clone()):
            v.ensure(st, 'acknowledged means the mark of ack()', EQ(boolv(ret), EQ(rd(s0, a0), ACK)))
            v.unchanged(st, s0, r, REC)
        box = []
        v.ex.on_store.append(lambda ex, st, p, n, val, i: box.append(bool(i.volatile or 'atomic' in i.flags)) if p.reg is r.reg else None)
        for st, ret in v.call(r'^hogl::record::ack\(\)$', [r], s0.clone()):
            v.ensure(st, 'the mark is set, nothing else changes', EQ(rd(st, a0), ACK))
            v.ensure(st, 'as a shared (volatile/atomic) store', bool(box) and all(box), )
            v.unchanged(st, s0, r, REC, except_=[(a0, a0 + 8)])
            v.cover('returns', st)

TASKS = [('flush', request('flush(ring)', r'^hogl::flush\(hogl::ringbuf\*, unsigned int\)$', 0, False)),
         ('change', request('change_timesource(ring)', r'^hogl::change_timesource\(hogl::ringbuf\*, hogl::timesource\*, unsigned int\)$', 1, True)),
         ('tls', task_tls), ('record', task_record), ('switch', task_switch), ('add_ring', task_add_ring({'ts'})), ('add_ring2', task_add_ring2({'ts'})), ('flush_record', task_flush_record({'ack'})),
         ('flush_full', task_flush_full({'order'})), ('flush_tso', task_flush_tso({'order'})), ('process_tso', task_process(True, {'order', 'once'})), ('process_notso', task_process(False, {'order', 'once'})), ('process', task_process_rings({'order'}))]
REPLAY = {'src': 'R16.cc', 'timeout': 200, 'libs': ['-Wl,--wrap=pthread_create,--wrap=_Znwm,--wrap=pthread_join,--wrap=pthread_mutex_lock,--wrap=pthread_mutex_unlock,--wrap=pthread_mutex_trylock,--wrap=usleep']}
