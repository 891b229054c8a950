from ringlib import *
from hv.spec import *

UNITS = {'ring': '$VERIF/units/ring.cc'}
TRUSTED = ['x86-TSO: a compiler barrier (or sfence/lfence/mfence) between two volatile accesses orders them; one writer and one reader per ring',
           'pthread_mutex_*/pthread_cond_wait contracts']
ASSUMPTIONS = ['ring storage below 4 GiB (discharged for the constructor in R02)', 'rely: between two instructions of one side the other side only pops unread / pushes into free slots, which is exactly the guarantee proved for the other side',
               'blocking rings: the wait itself is R04']

def push_begin(V):
    v = V('push_begin')
    r = Ring(v); r.as_writer()
    s0 = v.st.clone()
    for st, ret in v.call(r'^hogl::ringbuf::push_begin\(\)$', [r.p]):
        v.ensure(st, 'returns the slot at the write position', ptr_eq(ret, Ptr(r.slots.reg, r.slot(r.t0))))
        v.ensure(st, 'whole slot lies in the ring storage', z3.ULE(bv(ret.off, 64) + (z3.BitVecVal(1, 64) << z3.ZeroExt(32, r.shift)), r.slots.reg.size) if ret.reg is r.slots.reg else False)
        v.unchanged(st, s0, r.p, RB, except_=['_head'])
        v.frame_regions(st, s0, [r.p.reg])
        v.cover('returns', st)

def push_commit(V):
    for bar in (True, False):
        v = V('push_commit(bar=%s)' % bar)
        r = Ring(v); r.as_writer()
        v.st.ghost['dirty'] = True
        v.st.ghost['nobar'] = not bar
        blocking = (r.flags & BLOCKING) != 0
        def block(ex, st, a, c):
            st.ghost['blocked'] = True
            ex.oblige(st, 'only a blocking ring waits', blocking, 'post')
            ex.oblige(st, 'waits only when the ring was seen full', EQ(st.ghost['seen_head'], r.t0), 'post')
            # while waiting the reader may pop; nothing else of the ring changes hands
            r.step_head(st)
            return None
        v.model(r'^hogl::ringbuf::block\(', block)
        s0 = v.st.clone()
        def phi(ex, st, i, v0): return None
        v.loop(r'ringbuf::push_commit', LoopSpec(inv=lambda ex, st, lv: [
            ('write position and counters untouched while waiting', AND(EQ(r.tail(st), r.t0), EQ(r.f(st, '_dropcnt'), r.drop0), EQ(r.f(st, '_seqnum'), r.seq0))),
            ('read position stays in range', AND(ULE(r.head(st), r.C), ULE(r.unread(r.head(st), r.t0), r.unread(r.h0, r.t0))))],
            ghost=('seen_head',), havoc=lambda ex, st, e: (r.v.set(st, r.p, RB, '_head', ex.fresh('h', 32)), st.ghost.__setitem__('blocked', st.ghost.get('blocked', False)))))
        v.st.ghost['seen_head'] = r.h0
        v.st.ghost['blocked'] = False
        outs = v.call(r'^hogl::ringbuf::push_commit\(bool\)$', [r.p, bar])
        for st, ret in outs:
            sh = st.ghost['seen_head']
            t1 = r.tail(st)
            d1 = r.f(st, '_dropcnt')
            v.ensure(st, 'a record is committed only into a slot seen free', IMP(NE(t1, r.t0), NE(sh, r.t0)))
            v.ensure(st, 'commit advances the write position by exactly one slot', IMP(NE(sh, r.t0), EQ(t1, simp((r.t0 + 1) & r.C))))
            v.ensure(st, 'a full ring is left untouched', IMP(EQ(sh, r.t0), EQ(t1, r.t0)))
            v.ensure(st, 'exactly the refused push of a non-blocking ring is counted as one drop', EQ(d1, simp(z3.If(bv(sh, 32) == r.t0, r.drop0 + 1, r.drop0))))
            v.ensure(st, 'a blocking ring never refuses', IMP(blocking, NE(sh, r.t0)))
            h1 = r.head(st)
            v.ensure(st, 'number of unread records grows by exactly one on success', IMP(NE(sh, r.t0), EQ(r.unread(h1, t1), simp(r.unread(h1, r.t0) + 1))))
            v.ensure(st, 'at most one publish', st.ghost.get('tail_stores', 0) <= 1)
            v.unchanged(st, s0, r.p, RB, except_=['_head', '_tail', '_dropcnt'])
            v.frame_regions(st, s0, [r.p.reg])
        v.cover_exists('push succeeds', [(s, NE(s.ghost['seen_head'], r.t0)) for s, _ in outs])
        v.cover_exists('push refused', [(s, EQ(s.ghost['seen_head'], r.t0)) for s, _ in outs])
        v.cover_exists('wrap-around', [(s, AND(EQ(r.t0, r.C), EQ(r.tail(s), 0))) for s, _ in outs])

def pop_begin(V):
    v = V('pop_begin')
    r = Ring(v); r.as_reader()
    v.st.ghost['seen_tail'] = r.t0
    s0 = v.st.clone()
    outs = v.call(r'^hogl::ringbuf::pop_begin\(\)$', [r.p])
    for st, ret in outs:
        t = st.ghost['seen_tail']
        e = EQ(r.unread(r.h0, t), 0)
        nxt = simp((r.h0 + 1) & r.C)
        v.ensure(st, 'null exactly when nothing is unread', z3.simplify(boolv(e) == boolv(is_null(ret))) if not isinstance(is_null(ret), bool) else (e if is_null(ret) else NOT(e)))
        if is_null(ret) is not True:
            v.ensure(st, 'returns the oldest unread record', ptr_eq(ret, Ptr(r.slots.reg, r.slot(nxt))))
        v.unchanged(st, s0, r.p, RB, except_=['_tail'])
        v.frame_regions(st, s0, [r.p.reg])
    v.cover_exists('empty', [(s, is_null(x)) for s, x in outs])
    v.cover_exists('non-empty', [(s, NOT(is_null(x))) for s, x in outs])

def pop_commit(V):
    for bar in (True, False):
        v = V('pop_commit(bar=%s)' % bar)
        r = Ring(v); r.as_reader()
        v.st.ghost.update(dirty=True, nobar=not bar)
        v.assume(r.unread(r.h0, r.t0) != 0)      # there is a record to give back
        s0 = v.st.clone()
        for st, ret in v.call(r'^hogl::ringbuf::pop_commit\(bool\)$', [r.p, bar]):
            h1, t1 = r.head(st), r.tail(st)
            v.ensure(st, 'gives back exactly the oldest slot', EQ(h1, simp((r.h0 + 1) & r.C)))
            v.ensure(st, 'one record fewer is unread', EQ(r.unread(h1, t1), simp(r.unread(r.h0, t1) - 1)))
            v.ensure(st, 'one publish', st.ghost.get('head_stores', 0) == 1)
            v.unchanged(st, s0, r.p, RB, except_=['_tail', '_head'])
            v.frame_regions(st, s0, [r.p.reg])
            v.cover('returns', st)

def iterator(V):
    # ---- construction / reset take a snapshot
    for what in ('reset', 'ring', 'ctor'):
        v = V('pop_iterator::' + what)
        r = Ring(v); r.as_reader()
        it = v.obj(PIT, 'iter')
        v.st.ghost['seen_tail'] = r.t0
        if what == 'reset':
            v.set(v.st, it, PIT, '_ring', r.p)
            outs = v.call(r'pop_iterator::reset\(\)$', [it])
        elif what == 'ring':
            outs = v.call(r'pop_iterator::ring\(hogl::ringbuf\*\)$', [it, r.p])
        else:
            outs = v.call('@hv_pit_ctor', [it, r.p])
        for st, ret in outs:
            v.ensure(st, 'iterator starts at the read position', EQ(v.get(st, it, PIT, '_head'), r.h0))
            v.ensure(st, 'iterator ends at the write position it saw', EQ(v.get(st, it, PIT, '_tail'), st.ghost['seen_tail']))
            v.ensure(st, 'iterator refers to the ring', ptr_eq(v.get(st, it, PIT, '_ring', True), r.p))
            v.ensure(st, 'ring indices unchanged by the reader', EQ(r.head(st), r.h0))
            v.cover('returns', st)
    # ---- next walks the snapshot window in order, one slot at a time
    v = V('pop_iterator::next')
    r = Ring(v); r.as_reader()
    it = v.obj(PIT, 'iter')
    ih, itl = v.sym('it.head', 32), v.sym('it.tail', 32)
    def setup(v, r, it, ih, itl):
        v.set(v.st, it, PIT, '_ring', r.p)
        v.set(v.st, it, PIT, '_head', ih)
        v.set(v.st, it, PIT, '_tail', itl)
        v.assume(z3.ULE(ih, r.C)); v.assume(z3.ULE(itl, r.C))
        # snapshot window lies inside the ring's unread window: head <= ih < itl <= tail (cyclically)
        d = lambda x: (x - r.h0) & r.C
        v.assume(z3.ULE(d(ih) , (itl - r.h0 - 1) & r.C))
        v.assume(z3.ULE((itl - r.h0 - 1) & r.C, (r.t0 - r.h0 - 1) & r.C))
    setup(v, r, it, ih, itl)
    s0 = v.st.clone()
    outs = v.call(r'pop_iterator::next\(\)$', [it])
    for st, ret in outs:
        left = (itl - ih - 1) & r.C
        nxt = simp((ih + 1) & r.C)
        n1 = v.get(st, it, PIT, '_head')
        v.ensure(st, 'null exactly at the end of the snapshot', (left == 0) if is_null(ret) is True else AND(left != 0, NOT(is_null(ret))))
        if is_null(ret) is not True:
            v.ensure(st, 'returns the next record in order', ptr_eq(ret, Ptr(r.slots.reg, r.slot(nxt))))
            v.ensure(st, 'advances by one', EQ(n1, nxt))
            v.ensure(st, 'the record is one of the unread records', z3.ULT((nxt - r.h0 - 1) & r.C, r.unread(r.h0, r.t0)))
        else:
            v.ensure(st, 'stays at the end', EQ(n1, ih))
        v.ensure(st, 'snapshot end unchanged', EQ(v.get(st, it, PIT, '_tail'), itl))
        v.unchanged(st, s0, r.p, RB, except_=['_tail'])
        v.frame_regions(st, s0, [r.p.reg, it.reg])
    v.cover_exists('end', [(s, is_null(x)) for s, x in outs])
    v.cover_exists('more', [(s, NOT(is_null(x))) for s, x in outs])
    # ---- rewind to record i: next() continues right after it
    v = V('pop_iterator::rewind')
    r = Ring(v); r.as_reader()
    it = v.obj(PIT, 'iter')
    ih, itl = v.sym('it.head', 32), v.sym('it.tail', 32)
    setup(v, r, it, ih, itl)
    i = v.sym('i', 32)
    v.assume(z3.ULE(i, r.C))
    s0 = v.st.clone()
    for st, ret in v.call(r'pop_iterator::rewind\(hogl::record\*\)$', [it, Ptr(r.slots.reg, r.slot(i))]):
        v.ensure(st, 'iterator stands on that record', EQ(v.get(st, it, PIT, '_head'), i))
        v.ensure(st, 'snapshot end unchanged', EQ(v.get(st, it, PIT, '_tail'), itl))
        v.unchanged(st, s0, r.p, RB, except_=['_tail'])
        v.frame_regions(st, s0, [r.p.reg, it.reg])
        v.cover('returns', st)
    # ---- commit gives back exactly the records up to the iterator position
    for bar in (True, False):
        v = V('pop_iterator::commit(bar=%s)' % bar)
        r = Ring(v); r.as_reader()
        it = v.obj(PIT, 'iter')
        ih, itl = v.sym('it.head', 32), v.sym('it.tail', 32)
        setup(v, r, it, ih, itl)
        v.st.ghost.update(dirty=True, nobar=not bar)
        s0 = v.st.clone()
        for st, ret in v.call(r'pop_iterator::commit\(bool\)$', [it, bar]):
            h1, t1 = r.head(st), r.tail(st)
            v.ensure(st, 'read position becomes the iterator position', EQ(h1, ih))
            v.ensure(st, 'exactly the iterated records are given back', EQ(r.unread(h1, t1), simp(r.unread(r.h0, t1) - ((ih - r.h0) & r.C))))
            v.ensure(st, 'one publish', st.ghost.get('head_stores', 0) == 1)
            v.unchanged(st, s0, r.p, RB, except_=['_tail', '_head'])
            v.frame_regions(st, s0, [r.p.reg, it.reg])
            v.cover('returns', st)
    v = V('pop_iterator::ring(0)')
    r = Ring(v)
    it = v.obj(PIT, 'iter')
    v.set(v.st, it, PIT, '_ring', r.p)
    for st, ret in v.call(r'pop_iterator::invalidate\(\)$', [it]):
        v.ensure(st, 'invalid iterator refers to no ring', is_null(v.get(st, it, PIT, '_ring', True)))
    s = v.st.clone()
    v.set(s, it, PIT, '_ring', NULL)
    for st, ret in v.call(r'pop_iterator::valid\(\) const$', [it], s):
        v.ensure(st, 'valid() is false without a ring', NOT(boolv(ret) if not isc(ret) else bool(ret)))
    s = v.st.clone()
    v.set(s, it, PIT, '_ring', r.p)
    for st, ret in v.call(r'pop_iterator::valid\(\) const$', [it], s):
        v.ensure(st, 'valid() is true with a ring', boolv(ret) if not isc(ret) else bool(ret))

def counters(V):
    for fn, name, exp in ((r'ringbuf::size\(\) const$', 'size', lambda r, u: u), (r'ringbuf::room\(\) const$', 'room', lambda r, u: r.C - u),
                          (r'ringbuf::capacity\(\) const$', 'capacity', lambda r, u: r.C + 1)):
        v = V(name)
        r = Ring(v)
        u = r.unread(r.h0, r.t0)
        s0 = v.st.clone()
        for st, ret in v.call(fn, [r.p]):
            v.ensure(st, '%s() agrees with the number of unread records' % name, EQ(ret, simp(exp(r, u))))
            v.unchanged(st, s0, r.p, RB)
            v.cover('returns', st)
    v = V('empty')
    r = Ring(v)
    u = r.unread(r.h0, r.t0)
    for st, ret in v.call(r'ringbuf::empty\(\) const$', [r.p]):
        v.ensure(st, 'empty() exactly when nothing is unread', simp((boolv(ret) if not isc(ret) else z3.BoolVal(bool(ret))) == (u == 0)))

def lemmas(V):
    v = V('FIFO lemmas over the contracts')
    C, h, t, k, j = [z3.BitVec(x, 32) for x in 'Chtkj']
    ok = [(C & (C + 1)) == 0, z3.UGE(C, 1), z3.ULE(C, 0x7fffffff), z3.ULE(h, C), z3.ULE(t, C)]
    u = (t - h - 1) & C
    idx = lambda h, k: (h + 1 + k) & C
    v.lemma('the slot handed to the writer holds no unread record', z3.Implies(z3.ULT(k, u), idx(h, k) != t), ok)
    v.lemma('distinct unread positions are distinct slots', z3.Implies(z3.And(z3.ULT(k, u), z3.ULT(j, u), k != j), idx(h, k) != idx(h, j)), ok)
    t2 = (t + 1) & C
    v.lemma('a commit appends the written slot at the end and keeps the others in place',
            z3.Implies(h != t, z3.And(((t2 - h - 1) & C) == u + 1, idx(h, u) == t)), ok)
    h2 = (h + 1) & C
    v.lemma('a pop removes the oldest and keeps the others in order', z3.Implies(u != 0, z3.And(((t - h2 - 1) & C) == u - 1, z3.Implies(z3.ULT(k, u - 1), idx(h2, k) == idx(h, k + 1)))), ok)
    v.lemma('full exactly when as many records are unread as fit', (h == t) == (u == C), ok)

TASKS = [('push_begin', push_begin), ('push_commit', push_commit), ('pop_begin', pop_begin), ('pop_commit', pop_commit), ('iterator', iterator), ('counters', counters), ('lemmas', lemmas)]
REPLAY = {'src': 'R01.cc', 'timeout': 100}
