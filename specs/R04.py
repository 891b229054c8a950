from ringlib import *
import enginelib
from hv.spec import *
from hv import lib
import z3

UNITS = {'ring': '$VERIF/units/ring.cc', 'engine': '$REPO/src/engine.cc'}
TRUSTED = ['x86-TSO: a full fence (mfence / locked instruction) between a store and a later load makes the store visible first',
           'pthread contracts: cond_wait releases the mutex atomically with going to sleep; a signal sent after that wakes the sleeper', 'the reader keeps running (it calls the announcing function after it made room)']
ASSUMPTIONS = ['one writer waits at a time (an unshared ring has one writer; writers of a shared ring hold its lock while they wait, R06)']
Z = z3.BoolVal

class Mon:
    """ghost state of the wait/announce protocol"""
    def __init__(self, v, r):
        self.v, self.r = v, r
        self.mutex = v.fptr(r.p, RB, '_block_mutex')
        self.cond = v.fptr(r.p, RB, '_block_cond')
        self.fl = v.off(RB, '_block_active')[0]
        v.st.ghost.update(raised=False, fenced=False, rechecked=False)
    def held(self, st):
        return any(k[1] == self.r.p.reg.id and k[3] == str(self.mutex.off) for k in lib.held(st))
    def is_flag(self, p):
        return p.reg is self.r.p.reg and isc(p.off) and p.off == self.fl
    def writer(self):
        v, r = self.v, self.r
        ex = v.ex
        r.as_writer()
        def on_load(ex, st, p, n, i):
            if r.is_field(p, '_head') and st.ghost['fenced'] is True:
                st.ghost['rechecked'] = EQ(r.head(st), r.tail(st))
        def on_store(ex, st, p, n, val, i):
            if self.is_flag(p):
                ex.oblige(st, 'the waiting flag is a shared (volatile/atomic) location', bool(i.volatile or i.op in ('atomicrmw', 'cmpxchg') or 'atomic' in i.flags), 'shared')
                ex.oblige(st, 'the waiting flag is changed under the block mutex only', self.held(st), 'lock')
                st.ghost['raised'] = True
                st.ghost['fenced'] = i.op in ('atomicrmw', 'cmpxchg') or ('atomic' in i.flags and ' seq_cst' in i.text)
                st.ghost['rechecked'] = False
        def on_asm(ex, st, text, i):
            if is_full_barrier(text, i) and st.ghost['raised'] is True:
                st.ghost['fenced'] = True
        def on_wait(ex, st, cond, mutex):
            ex.oblige(st, 'waits on the condition the reader signals', ptr_eq(cond, self.cond), 'wait')
            ex.oblige(st, 'waits with the mutex the reader takes', ptr_eq(mutex, self.mutex), 'wait')
            ex.oblige(st, 'announced as waiting before going to sleep', AND(NE(v.get(st, r.p, RB, '_block_active'), 0)), 'wait')
            ex.oblige(st, 'after the announcement is visible the ring is seen full once more before going to sleep', st.ghost['rechecked'], 'wait')
            ex.oblige(st, 'only a blocking ring waits', (r.flags & BLOCKING) != 0, 'wait')
            st.ghost.update(raised=False, fenced=False, rechecked=False)
            v.set(st, r.p, RB, '_block_active', z3.If(ex.fresh('act', 'bool'), z3.BitVecVal(1, 8), z3.BitVecVal(0, 8)))
            r.step_head(st)
        def on_unlock(ex, st, p):
            if ptr_eq(p, self.mutex) is True:
                # the reader may clear the flag from now on
                st.ghost.update(raised=False, fenced=False, rechecked=False)
        def on_lock(ex, st, p):
            if ptr_eq(p, self.mutex) is True:
                v.set(st, r.p, RB, '_block_active', z3.If(ex.fresh('act', 'bool'), z3.BitVecVal(1, 8), z3.BitVecVal(0, 8)))
        ex.on_load.append(on_load)
        ex.on_store.append(on_store)
        ex.on_asm.append(on_asm)
        ex.on_wait = [on_wait]
        ex.on_unlock = [on_unlock]
        ex.on_lock = [on_lock]
    def reader(self):
        """after the head was published"""
        v, r = self.v, self.r
        ex = v.ex
        v.st.ghost.update(fence=False, seen_clear=False, locked_after=False, signalled=False, owe=False, cs_signal=False)
        def on_load(ex, st, p, n, i):
            if self.is_flag(p):
                ex.oblige(st, 'the waiting flag is read as a shared (volatile/atomic) location', bool(i.volatile or 'atomic' in i.flags), 'shared')
                if not self.held(st):
                    f = ex.fresh('act', 'bool')
                    v.set(st, r.p, RB, '_block_active', z3.If(f, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8)))
                    if st.ghost['fence'] is True:
                        st.ghost['seen_clear'] = OR(st.ghost['seen_clear'], NOT(f))
                else:
                    st.ghost['seen_clear'] = OR(st.ghost['seen_clear'], EQ(v.get(st, r.p, RB, '_block_active'), 0))
        def on_store(ex, st, p, n, val, i):
            if self.is_flag(p):
                ex.oblige(st, 'the waiting flag is changed under the block mutex only', self.held(st), 'lock')
                st.ghost['owe'] = not st.ghost['cs_signal']
            if p.reg is r.p.reg and isc(p.off) and p.off in (r.offs['_head'][0],):
                st.ghost['fence'] = False
        def on_asm(ex, st, text, i):
            if is_full_barrier(text, i):
                st.ghost['fence'] = True
        def on_lock(ex, st, p):
            if ptr_eq(p, self.mutex) is True:
                st.ghost.update(locked_after=True, cs_signal=False)
                v.set(st, r.p, RB, '_block_active', z3.If(ex.fresh('act', 'bool'), z3.BitVecVal(1, 8), z3.BitVecVal(0, 8)))
        def on_signal(ex, st, cond):
            if ptr_eq(cond, self.cond) is True and st.ghost['locked_after']:
                st.ghost.update(signalled=True, owe=False, cs_signal=True)
        ex.on_load.append(on_load)
        ex.on_store.append(on_store)
        ex.on_asm.append(on_asm)
        ex.on_lock = [on_lock]
        ex.on_signal = [on_signal]
    def check_reader(self, st):
        v = self.v
        v.ensure(st, 'a waiting writer is woken: signals after taking the mutex, unless the flag was seen clear with the new read position visible', OR(st.ghost['signalled'], st.ghost['seen_clear']))
        v.ensure(st, 'the flag is cleared only together with a signal', not st.ghost['owe'])
        v.ensure(st, 'the block mutex is released', not self.held(st))

def writer(V):
    for blocking in (True, False):
        v = V('push_commit(%s ring)' % ('blocking' if blocking else 'non-blocking'))
        r = Ring(v)
        m = Mon(v, r)
        m.writer()
        v.st.ghost['dirty'] = True
        isb = (r.flags & BLOCKING) != 0
        v.assume(isb if blocking else NOT(isb))
        v.st.ghost['seen_head'] = r.h0
        def havoc(ex, st, e):
            v.set(st, r.p, RB, '_head', ex.fresh('h', 32))
            v.set(st, r.p, RB, '_block_active', z3.If(ex.fresh('act', 'bool'), z3.BitVecVal(1, 8), z3.BitVecVal(0, 8)))
            st.ghost.update(raised=False, fenced=False, rechecked=False)
        v.loop(r'ringbuf::', LoopSpec(inv=lambda ex, st, lv: [
            ('write position and counters untouched while waiting', AND(EQ(r.tail(st), r.t0), EQ(r.f(st, '_dropcnt'), r.drop0), EQ(r.f(st, '_seqnum'), r.seq0))),
            ('the lock is not kept between waits', not lib.held(st)),
            ('read position stays in range', AND(ULE(r.head(st), r.C), ULE(r.unread(r.head(st), r.t0), r.unread(r.h0, r.t0))))],
            ghost=('seen_head', 'raised', 'fenced', 'rechecked'), havoc=havoc))
        s0 = v.st.clone()
        outs = v.call(r'^hogl::ringbuf::push_commit\(bool\)$', [r.p, True])
        for st, ret in outs:
            if blocking:
                v.ensure(st, 'never counted as a drop', EQ(r.f(st, '_dropcnt'), r.drop0))
                v.ensure(st, 'the record is stored when the post returns', EQ(r.tail(st), simp((r.t0 + 1) & r.C)))
                v.ensure(st, 'stored into a free slot only', NE(st.ghost['seen_head'], r.t0))
            else:
                v.ensure(st, 'a full ring that does not block refuses', EQ(r.tail(st), simp(z3.If(bv(st.ghost['seen_head'], 32) == r.t0, r.t0, (r.t0 + 1) & r.C))))
            v.ensure(st, 'no lock is kept', not lib.held(st))
            v.unchanged(st, s0, r.p, RB, except_=['_head', '_tail', '_dropcnt', '_block_active', '_block_mutex', '_block_cond'])
            v.frame_regions(st, s0, [r.p.reg])
        v.cover_exists('stored', [(st, NE(r.tail(st), r.t0)) for st, _ in outs])
        if blocking:
            v.cover_exists('after waiting', [(st, EQ(st.ghost['seen_head'], st.ghost['seen_head'])) for st, _ in outs])

def reader(V):
    v = V('unblock')
    r = Ring(v)
    m = Mon(v, r)
    m.reader()
    s0 = v.st.clone()
    outs = v.call(r'^hogl::ringbuf::unblock\(\)$', [r.p])
    for st, ret in outs:
        m.check_reader(st)
        v.unchanged(st, s0, r.p, RB, except_=['_block_active', '_block_mutex', '_block_cond'])
        v.frame_regions(st, s0, [r.p.reg])
    v.cover_exists('nobody waits', [(st, NOT(boolv(st.ghost['signalled']))) for st, _ in outs])
    v.cover_exists('somebody waits', [(st, boolv(st.ghost['signalled'])) for st, _ in outs])

def create(V):
    v = V('a new ring')
    v.lemma('see R02: the constructor', True)

def lemmas(V):
    v = V('wake-up lemma over the contracts')
    # positions of the events in the order in which they take effect (full fences between store and load on both sides)
    A, R, H, Q, W, L, S = z3.Ints('announce recheck publish flagcheck sleep readerlock signal')
    seen_old, sees_flag = z3.Bools('recheck_saw_full flagcheck_saw_announcement')
    pre = [A < R, R < W, H < Q,                       # contracts: writer (fence between), reader (fence between)
           seen_old == (R < H),                       # the recheck sees the room exactly when it was published before
           z3.Implies(z3.And(A < Q, Q <= W), sees_flag),  # nobody clears the flag between announcement and sleep: the mutex is held
           z3.Implies(Q > W, sees_flag),              # after the sleep began the flag is cleared together with a signal only (which wakes the writer)
           z3.Implies(sees_flag, z3.And(Q < L, L < S)), z3.Implies(sees_flag, L > W)]  # the reader's lock follows the writer's release (sleep)
    v.lemma('a writer that goes to sleep is signalled by the reader that made room', z3.Implies(seen_old, z3.And(sees_flag, S > W)), pre)
    v.lemma('room made before the recheck is seen: the writer does not sleep', z3.Implies(H < R, z3.Not(seen_old)), pre)

TASKS = [('writer', writer), ('reader', reader), ('lemmas', lemmas), ('process_tso', enginelib.task_process(True, {'unblock'})), ('process_notso', enginelib.task_process(False, {'unblock'}))]
REPLAY = {'src': 'R04.cc', 'timeout': 100, 'hang_is_failure': True, 'libs': ['-Wl,--wrap=pthread_mutex_lock,--wrap=pthread_mutex_unlock,--wrap=pthread_cond_wait,--wrap=pthread_cond_signal']}
