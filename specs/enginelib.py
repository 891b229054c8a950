"""Shared pre-states, ghost events and contracts for hogl::engine."""
from hv.sym import *
from hv.spec import *
from hv import lib, ir
import z3

ENG, RB, REC, TSO, TSE, RIE, AREA = 'hogl::engine', 'hogl::ringbuf', 'hogl::record', 'hogl::tsobuf', 'hogl::tsobuf::entry', 'hogl::engine::ring_index::entry', 'hogl::area'
INFO, WARN, ERROR, DROPMARK, TSOFULLMARK = 0, 1, 2, 3, 4
SEQM = (1 << 52) - 1
Z64 = lambda x: x if isc(x) else (z3.ZeroExt(64 - x.size(), x) if x.size() < 64 else x)

def fam(ex, name, size, nullable=True, **types):
    r = ex.region(name, size, 'fam', nullable=nullable)
    return r

class Eng:
    def __init__(self, v, minwin=0):
        self.v = v
        ex = v.ex
        st = v.st
        self.p = v.obj(ENG, 'engine')
        # ---- families of rings, records, areas
        self.rings = fam(ex, 'ring', v.size(RB))
        self.recs = fam(ex, 'record', v.size(REC))
        self.names = fam(ex, 'ringname', 1 << 20)
        # ---- time ordering buffer
        self.cap = v.sym('tso.capacity', 32)
        self.hd, self.tl = v.sym('tso.head', 32), v.sym('tso.tail', 32)
        self.stride = v.size(TSE)
        self.ent = ex.region('tso.entries', simp(Z64(self.cap) * self.stride), 'aos')
        self.ent.stride = self.stride
        self.ent.count = simp(Z64(self.cap))
        self.to = {f: v.off(TSE, f) for f in ('timestamp', 'rec', 'tag')}
        self.ent.famtype[(self.to['rec'][0], 8)] = lambda x: Ptr(self.recs, 0, x)
        v.assume(z3.UGE(self.cap, 1)); v.assume(z3.ULE(self.cap, 1 << 27))
        v.assume(z3.ULE(self.hd, self.tl)); v.assume(z3.ULE(self.tl, self.cap))
        if minwin:
            v.assume(z3.ULT(self.hd, self.tl))
        for f, x in (('_head', self.hd), ('_tail', self.tl), ('_capacity', self.cap), ('_entry', Ptr(self.ent, 0))):
            self.setf(st, '_tso.' + f, x)
        # ---- ring index
        self.n = v.sym('rings', 32)
        v.assume(z3.ULE(self.n, 1 << 20))
        self.ixs = v.size(RIE)
        self.idx = ex.region('ring_index', simp(Z64(self.n) * self.ixs), 'aos')
        self.idx.stride = self.ixs
        self.idx.count = simp(Z64(self.n))
        po, _ = v.off(RIE, 'pit')
        self.io = {'ring': (po + v.off('hogl::ringbuf::pop_iterator', '_ring')[0], 8), 'head': (po + v.off('hogl::ringbuf::pop_iterator', '_head')[0], 4),
                   'tail': (po + v.off('hogl::ringbuf::pop_iterator', '_tail')[0], 4), 'lastrec': v.off(RIE, 'lastrec'), 'seqnum': v.off(RIE, 'seqnum')}
        self.idx.famtype[(self.io['ring'][0], 8)] = lambda x: Ptr(self.rings, 0, x)
        self.idx.famtype[(self.io['lastrec'][0], 8)] = lambda x: Ptr(self.recs, 0, x)
        self.setf(st, '_ring_index.entries', Ptr(self.idx, 0))
        self.setf(st, '_ring_index.count', self.n)
        self.iarea = v.obj(AREA, 'internal_area')
        self.setf(st, '_internal_area', self.iarea)
        self.marks = {}
        def test(ex, st, a, c):
            ex.oblige(st, "the engine's own area decides about engine messages", ptr_eq(a[0], self.iarea), 'pre')
            k = a[1] if isc(a[1]) else str(a[1])
            if k not in self.marks:
                self.marks[k] = v.sym('section%s.enabled' % k, 'bool')
            return self.marks[k]
        v.model(r'^hogl::area::test\(unsigned int\) const$', test)
        def ringname(ex, st, a, c):
            q = v.get(st, a[0], RB, '_name')
            return Ptr(self.names, 0, bv(q, 64))
        v.model(r'^hogl::ringbuf::name\(\) const$', ringname)
    def mark(self, k):
        if k not in self.marks:
            self.marks[k] = self.v.sym('section%s.enabled' % k, 'bool')
        return self.marks[k]
    def getf(self, st, f, isptr=False):
        return self.v.get(st, self.p, ENG, f, isptr)
    def setf(self, st, f, x):
        self.v.set(st, self.p, ENG, f, x)
    def entry(self, st, i, f, mem=None):
        """field of time ordering entry i"""
        o, n = self.to[f]
        m = mem or st.m(self.ent)
        return m.read(simp(Z64(i)) if not isc(i) else i, o, n, f == 'rec')
    def ix(self, st, i, f, mem=None):
        o, n = self.io[f]
        m = mem or st.m(self.idx)
        return m.read(simp(Z64(i)) if not isc(i) else i, o, n, f in ('ring', 'lastrec'))
    def setix(self, st, i, f, x):
        o, n = self.io[f]
        st.mem[self.idx.id] = st.m(self.idx).write(simp(Z64(i)) if not isc(i) else i, o, n, x)
    def rec(self, st, r, f):
        v = self.v
        if f in ('seqnum', 'section'):
            w = bv(self.v.ex.peek(st, r.plus(16), 8), 64)
            return simp(w & SEQM) if f == 'seqnum' else simp(z3.LShR(w, 52))
        if f == 'ack':
            return None
        return v.get(st, r, REC, f)
    def head(self, st):
        return self.getf(st, '_tso._head')
    def tail(self, st):
        return self.getf(st, '_tso._tail')
    def window(self, st):
        return simp(bv(self.tail(st), 32) - bv(self.head(st), 32))
    # ---- well-formed window: every held entry belongs to a registered ring and points to a record
    def wf(self, st, i):
        t = self.entry(st, i, 'tag')
        return IMP(AND(ULE(Z64(self.hd), Z64(i)), ULT(Z64(i), Z64(self.tl))),
                   AND(ULT(bv(t, 32), self.n), NOT(is_null(self.entry(st, i, 'rec'))), NOT(is_null(self.ix(st, t, 'ring')))))
    def assume_wf(self):
        """instantiate the window invariant wherever an entry is read"""
        v = self.v
        def on_load(ex, st, p, n, i):
            if p.reg is self.ent:
                q = aos_norm(p)
                st.assume(self.wf(st, q.idx))
        v.ex.on_load.append(on_load)
        def on_memcpy(ex, st, d, s, n):
            if s.reg is self.ent:
                st.assume(self.wf(st, aos_norm(s).idx))
        v.ex.on_memcpy = getattr(v.ex, 'on_memcpy', []) + [on_memcpy]
    def havoc_entries(self, st):
        """arbitrary entry contents"""
        st.mem[self.ent.id] = st.m(self.ent).havoc(self.v.ex.fresh_reader(self.ent))
    def havoc_ix(self, st, fields):
        """arbitrary values of some fields of every ring index entry"""
        old = st.m(self.idx)
        fr = self.v.ex.fresh_reader(self.idx)
        offs = {self.io[f][0] for f in fields}
        def rd(idx, off, n, isptr):
            if off in offs:
                return fr(idx, off, n, isptr)
            return old.read(idx, off, n, isptr)
        st.mem[self.idx.id] = Mem(self.idx, (('havoc', rd),))
    # ---- std::sort over the window
    def model_sort(self, hook=None):
        v = self.v
        def sort(ex, st, a, c):
            lo, hi = aos_norm(a[0]), aos_norm(a[1])
            ex.oblige(st, 'exactly the held entries are sorted', AND(a[0].reg is self.ent, a[1].reg is self.ent, EQ(simp(Z64(self.head(st))), lo.idx), EQ(simp(Z64(self.tail(st))), hi.idx), lo.off == 0, hi.off == 0), 'pre')
            self.havoc_entries(st)
            st.ghost['sorted'] = True
            if hook:
                hook(st)
            return None
        v.model(r'^void std::sort<hogl::tsobuf::entry\*', sort)
    def sorted_pair(self, st, i, j):
        """the sort contract for two positions"""
        a, b = bv(self.entry(st, i, 'timestamp'), 64), bv(self.entry(st, j, 'timestamp'), 64)
        inw = AND(ULE(Z64(self.head(st)), Z64(i)), ULE(bv(Z64(i), 64), bv(Z64(j), 64)), ULT(Z64(j), Z64(self.tail(st))))
        return IMP(inw, z3.ULE(a, b))
    # ---- output events: flush_record(tag, rec) and inject_record(...) are only recorded
    def events(self):
        v = self.v
        v.st.ghost[('ev',)] = ()
        v.st.ghost['out'] = 0
        def flush_record(ex, st, a, c):
            self.on_flush(st, a[1], a[2])
            st.ghost[('ev',)] = st.ghost.get(('ev',), ()) + (('flush', a[1], a[2], st.m(self.idx)),)
            st.ghost['out'] = simp(bv(st.ghost['out'], 64) + 1)
            return None
        def inject(ex, st, a, c):
            t = a[2]
            t = v.ex.peek(st, t, 8) if isinstance(t, Ptr) else t
            st.ghost[('ev',)] = st.ghost.get(('ev',), ()) + (('inject', a[1], t, a[4], a[5], tuple(a[6:])),)
            return None
        v.model(r'^hogl::engine::flush_record\(', flush_record)
        v.model(r'^hogl::engine::inject_record\(', inject)
    def on_flush(self, st, tag, rec):
        pass

def cat(want, c):
    return want is None or c in want

def flush_loop(e, want):
    """obligations of one round of the output loop: a LoopSpec"""
    v = e.v
    e.sk = v.sym('q', 64)            # any other position of the window
    e.K = v.sym('K', 64)             # any ring index
    def on_flush(st, tag, rec):
        ex = v.ex
        if ('win',) not in st.ghost:
            if cat(want, 'order'):
                ex.oblige(st, 'the held records are sorted before they are output', False, 'post')
            return
        h, t, S = st.ghost[('win',)]
        p = simp(bv(Z64(h), 64) + bv(st.ghost['out'], 64) - bv(st.ghost.get(('out0',), 0), 64))
        if cat(want, 'once'):
            ex.oblige(st, 'the next held record is output', AND(ULT(p, Z64(t)), EQ(rec.idx if isinstance(rec, Ptr) and rec.idx is not None else rec, bv(e.entry(st, p, 'rec', S).idx, 64))), 'post')
            ex.oblige(st, "for the ring the record came from", EQ(bv(tag, 32), bv(e.entry(st, p, 'tag', S), 32)), 'post')
        if cat(want, 'order'):
            a, b = bv(e.entry(st, p, 'timestamp', S), 64), bv(e.entry(st, e.sk, 'timestamp', S), 64)
            st.assume(IMP(AND(ULE(p, e.sk), ULT(e.sk, Z64(t)), ULE(Z64(h), p)), z3.ULE(a, b)))    # sort contract
            ex.oblige(st, 'no older record is still held', IMP(AND(ULE(p, e.sk), ULT(e.sk, Z64(t))), z3.ULE(a, b)), 'post')
    e.on_flush = on_flush
    def begin(ex, st, lv):
        st.ghost[('ev',)] = ()
        st.ghost[('idx0',)] = st.m(e.idx)
        st.ghost[('drop0',)] = e.getf(st, '_stats.recs_dropped')
    def end(ex, st, lv, lv0):
        e.round(st)
    def round(st):
        ev = st.ghost.get(('ev',), ())
        fl = [x for x in ev if x[0] == 'flush']
        if not fl:
            inj = [x for x in ev if x[0] == 'inject' and x[3] == DROPMARK]
            if cat(want, 'gap'):
                v.ensure(st, 'no drop mark without the record that follows it', not inj)
            return
        if len(fl) > 1:
            raise Unsupported('more than one record output per loop round')
        if ('idx0',) not in st.ghost:
            raise Unsupported('records output outside the output loop')
        k = ev.index(fl[0])
        tag, rec = fl[0][1], fl[0][2]
        m0, m1 = st.ghost[('idx0',)], st.m(e.idx)
        if cat(want, 'lastrec'):
            v.ensure(st, 'the record becomes the last output record of its ring', ptr_eq(e.ix(st, tag, 'lastrec', m1), rec))
            v.ensure(st, 'no other ring is touched', IMP(NE(e.K, Z64(tag)), AND(*[val_eq(e.ix(st, e.K, f, m0), e.ix(st, e.K, f, m1)) for f in ('lastrec', 'ring')])))
        if cat(want, 'gap'):
            exp = bv(e.ix(st, tag, 'seqnum', m0), 64)
            seq = bv(e.rec(st, rec, 'seqnum'), 64)
            v.ensure(st, 'the expected sequence number of the ring becomes that of its next record', EQ(e.ix(st, tag, 'seqnum', m1), simp(seq + 1)))
            v.ensure(st, 'the expected sequence numbers of the other rings stay', IMP(NE(e.K, Z64(tag)), EQ(e.ix(st, e.K, 'seqnum', m0), e.ix(st, e.K, 'seqnum', m1))))
            v.ensure(st, 'the drop statistic grows by the gap', EQ(e.getf(st, '_stats.recs_dropped'), simp(bv(st.ghost[('drop0',)], 64) + (seq - exp))))
            inj = [x for x in ev[:k] if x[0] == 'inject']
            late = [x for x in ev[k:] if x[0] == 'inject']
            v.ensure(st, 'nothing is announced after the record', not late)
            gap = NE(seq, exp)
            on = e.mark(DROPMARK)
            if not inj:
                v.ensure(st, 'every gap is announced', IMP(AND(gap, on), False))
            else:
                v.ensure(st, 'a gap is announced once', len(inj) == 1)
                _, nm, ts, sect, fmt, args = inj[0]
                ring = e.ix(st, tag, 'ring', m0)
                v.ensure(st, 'only gaps are announced, and only while drop marks are enabled', AND(gap, on))
                v.ensure(st, 'announced as a drop mark', EQ(sect, DROPMARK))
                v.ensure(st, 'with the number of missing records', EQ(args[0], simp(seq - exp)))
                v.ensure(st, 'under the name of the ring', ptr_eq(nm, Ptr(e.names, 0, bv(v.get(st, ring, RB, '_name'), 64))))
                v.ensure(st, 'dated just before the record', EQ(ts, simp(bv(e.rec(st, rec, 'timestamp'), 64) - 1)))
    e.round = round
    def cands(ex, st, lv):
        return [('the window is not negative', ULE(e.head(st), e.tail(st)))]
    return LoopSpec(begin=begin, end=end, cands=cands)

def flush_setup(V, name, want, minwin=0):
    v = V(name)
    e = Eng(v, minwin)
    e.assume_wf()
    e.events()
    e.dead_recs = None
    def hook(st):
        st.ghost[('win',)] = (e.head(st), e.tail(st), st.m(e.ent))
        st.ghost[('out0',)] = st.ghost['out']
    e.model_sort(hook)
    v.loop(r'', flush_loop(e, want))
    return v, e

def common_post(v, e, st, s0, want):
    """after a flush: what is still held is what was not output, in place"""
    if ('win',) not in st.ghost:
        return None
    h, t, S = st.ghost[('win',)]
    return simp(bv(st.ghost['out'], 64) - bv(st.ghost.get(('out0',), 0), 64)), h, t, S

def task_flush_full(want=None):
    def run(V):
        v, e = flush_setup(V, 'engine::flush_full_tso', want, 1)
        s0 = v.st.clone()
        w = simp(Z64(e.tl) - Z64(e.hd))
        outs = v.call(r'^hogl::engine::flush_full_tso\(\)$', [e.p])
        for st, _ in outs:
            e.round(st) if st.ghost.get(('ev',)) and ('idx0',) in st.ghost and [x for x in st.ghost[('ev',)] if x[0] == 'flush'] else None
            c = common_post(v, e, st, s0, want)
            if cat(want, 'cap'):
                v.ensure(st, 'there is room for the next record', ULT(e.tail(st), e.cap))
                v.ensure(st, 'at least one record is output', c is not None and NE(c[0], 0))
            if c and cat(want, 'once'):
                n, h, t, S = c
                v.ensure(st, 'no more than the held records are output', ULE(n, w))
                v.ensure(st, 'the rest stays held', EQ(simp(Z64(e.tail(st)) - Z64(e.head(st))), simp(w - n)))
                k = v.fresh('k', 64)
                r = Z64(e.head(st))
                same = AND(*[val_eq(e.entry(st, simp(bv(r, 64) + k), f), e.entry(st, simp(bv(Z64(h), 64) + n + k), f, S)) for f in ('timestamp', 'rec', 'tag')])
                v.ensure(st, 'unchanged and in order', IMP(ULT(k, w - n), same))
                v.ensure(st, 'the buffer keeps its storage', AND(EQ(e.getf(st, '_tso._capacity'), e.cap), ptr_eq(e.getf(st, '_tso._entry', True), Ptr(e.ent, 0))))
        v.cover_exists('one record', [(st, w == 1) for st, _ in outs])
        v.cover_exists('many', [(st, AND(w == 5, bv(st.ghost['out'], 64) == 3)) for st, _ in outs])
    return run

def task_flush_tso(want=None):
    def run(V):
        v, e = flush_setup(V, 'engine::flush_tso', want)
        lo = v.sym('leftover', 32)
        e.setf(v.st, '_tso_leftover', lo)
        s0 = v.st.clone()
        w = simp(Z64(e.tl) - Z64(e.hd))
        outs = v.call(r'^hogl::engine::flush_tso\(\)$', [e.p])
        for st, _ in outs:
            c = common_post(v, e, st, s0, want)
            n = c[0] if c else z3.BitVecVal(0, 64)
            if cat(want, 'once'):
                v.ensure(st, 'no more than the held records are output', ULE(n, w))
                v.ensure(st, 'records held over from the last round are output now', IMP(ULE(Z64(lo), w), ULE(Z64(lo), n)))
                v.ensure(st, 'what is held over for the next round is counted', EQ(Z64(e.getf(st, '_tso_leftover')), simp(w - n)))
            if cat(want, 'cap'):
                v.ensure(st, 'the buffer is empty for the next round', AND(EQ(e.head(st), 0), EQ(e.tail(st), 0), EQ(e.getf(st, '_tso._capacity'), e.cap)))
        v.cover_exists('nothing to output', [(st, w == 0) for st, _ in outs])
        v.cover_exists('held over', [(st, AND(w == 5, bv(st.ghost['out'], 64) == 4)) for st, _ in outs])
    return run

def adr(x):
    return x.addr() if isinstance(x, Ptr) else x

# ---- time ordering buffer operations -----------------------------------------------------------
def task_tsobuf(V):
    def setup(name, nonempty=False, room=False):
        v = V(name)
        e = Eng(v)
        if room:
            v.assume(z3.ULT(e.tl, e.cap))
        o = v.off(ENG, '_tso')[0]
        e.t = e.p.plus(o)
        te = v.obj(TSE, 'te')
        return v, e, te
    k = None
    def frame(v, e, st, s0, fields):
        for f in ('_head', '_tail', '_capacity'):
            if f not in fields:
                v.ensure(st, '%s unchanged' % f, EQ(e.getf(st, '_tso.' + f), e.getf(s0, '_tso.' + f)))
        v.ensure(st, 'storage unchanged', ptr_eq(e.getf(st, '_tso._entry', True), Ptr(e.ent, 0)))
    F = ('timestamp', 'rec', 'tag')
    tv = lambda v, st, p, f: v.ex.peek(st, p.plus(v.off(TSE, f)[0]), v.off(TSE, f)[1], False)
    # push
    v, e, te = setup('tsobuf::push', room=True)
    k = v.sym('k', 64)
    s0 = v.st.clone()
    for st, _ in v.call(r'^hogl::tsobuf::push\(', [e.t, te]):
        v.ensure(st, 'one more entry is held', EQ(e.tail(st), simp(e.tl + 1)))
        for f in F:
            v.ensure(st, 'the new entry is the one given (%s)' % f, val_eq(adr(e.entry(st, e.tl, f)), tv(v, s0, te, f)))
            v.ensure(st, 'other entries stay (%s)' % f, IMP(NE(k, Z64(e.tl)), val_eq(e.entry(st, k, f), e.entry(s0, k, f))))
        frame(v, e, st, s0, ['_tail'])
        v.unchanged(st, s0, te, TSE)
        v.cover('returns', st)
    for op in ('pop', 'top'):
        v, e, te = setup('tsobuf::' + op)
        k = v.sym('k', 64)
        s0 = v.st.clone()
        outs = v.call(r'^hogl::tsobuf::%s\(' % op, [e.t, te])
        for st, r in outs:
            has = ULT(e.hd, e.tl)
            v.ensure(st, 'tells whether an entry is held', EQ(r, has))
            v.ensure(st, 'takes the oldest entry' if op == 'pop' else 'keeps the entry', EQ(e.head(st), ITE(has, simp(e.hd + 1), e.hd) if op == 'pop' else e.hd))
            for f in F:
                v.ensure(st, 'the first entry is returned (%s)' % f, IMP(has, val_eq(tv(v, st, te, f), adr(e.entry(s0, e.hd, f)))))
                v.ensure(st, 'entries stay (%s)' % f, val_eq(e.entry(st, k, f), e.entry(s0, k, f)))
            frame(v, e, st, s0, ['_head'])
        v.cover_exists('empty', [(st, EQ(r, False)) for st, r in outs])
        v.cover_exists('not empty', [(st, EQ(r, True)) for st, r in outs])
    v, e, te = setup('tsobuf::flip')
    k = v.sym('k', 64)
    s0 = v.st.clone()
    for st, _ in v.call(r'^hogl::tsobuf::flip\(\)', [e.t]):
        w = simp(e.tl - e.hd)
        v.ensure(st, 'the same number of entries is held from the start of the storage', AND(EQ(e.head(st), 0), EQ(e.tail(st), w)))
        for f in F:
            v.ensure(st, 'the held entries keep their order (%s)' % f, IMP(ULT(k, Z64(w)), val_eq(e.entry(st, k, f), e.entry(s0, simp(Z64(e.hd) + k), f))))
        frame(v, e, st, s0, ['_head', '_tail'])
        v.cover('returns', st)
    for op in ('reset', 'clear'):
        v, e, te = setup('tsobuf::' + op)
        if not v.has(r'^hogl::tsobuf::%s\(\)' % op):
            continue
        s0 = v.st.clone()
        for st, _ in v.call(r'^hogl::tsobuf::%s\(\)' % op, [e.t]):
            v.ensure(st, 'nothing is held', AND(EQ(e.head(st), 0), EQ(e.tail(st), 0)))
            frame(v, e, st, s0, ['_head', '_tail'])
    for op, want in (('size', lambda e: simp(e.tl - e.hd)), ('full', lambda e: EQ(e.tl, e.cap)), ('empty', lambda e: EQ(e.hd, e.tl)), ('capacity', lambda e: e.cap)):
        v, e, te = setup('tsobuf::' + op)
        if not v.has(r'^hogl::tsobuf::%s\(\) const' % op):
            continue
        s0 = v.st.clone()
        for st, r in v.call(r'^hogl::tsobuf::%s\(\) const' % op, [e.t]):
            v.ensure(st, 'value', EQ(r, want(e)))
            v.frame_regions(st, s0, [])
    v, e, te = setup('tsobuf::sort')
    e.model_sort()
    for st, _ in v.call(r'^hogl::tsobuf::sort\(\)', [e.t]):
        v.ensure(st, 'sorted', st.ghost.get('sorted') is True)
        frame(v, e, st, v.st, [])
        v.cover('returns', st)
    v = V('tsobuf::less')
    a, b = v.obj(TSE, 'a'), v.obj(TSE, 'b')
    lo = v.obj('hogl::tsobuf::less', 'less')
    for fn in v.cands(r'^hogl::tsobuf::less::operator\(\)'):
        for st, r in v.call(fn, [lo, a, b]):
            v.ensure(st, 'orders by time stamp', EQ(r, ULT(v.ex.peek(st, a.plus(v.off(TSE, 'timestamp')[0]), 8), v.ex.peek(st, b.plus(v.off(TSE, 'timestamp')[0]), 8))))
    v = V('tsobuf::resize')
    t = v.obj(TSO, 'tso')
    old = v.buf('old', 24, heap=True) if False else v.buf('old', 24)
    old.reg.heap = True
    v.set(v.st, t, TSO, '_entry', old)
    n = v.sym('n', 32)
    v.assume(z3.UGE(n, 1)); v.assume(z3.ULE(n, 1 << 20))
    def newarr(ex, st, a, c):
        sz = simp(Z64(n) * v.size(TSE))
        ex.oblige(st, 'storage for exactly that many entries', EQ(a[0], sz), 'post')
        r = ex.region('entries', sz, 'aos'); r.stride = v.size(TSE); r.count = simp(Z64(n)); r.heap = True
        return Ptr(r, 0)
    v.model(r'^operator new\[\]\(unsigned long\)$', newarr)
    def cands(ex, st, lv):
        out = []
        for key, p in lv.cur.items():
            if isinstance(p, Ptr) and p.reg.kind == 'aos':
                q = aos_norm(p)
                out.append(('%s is inside the new storage' % (key,), ULT(bv(q.idx, 64), bv(p.reg.count, 64))))
        return out
    v.loop(r'', LoopSpec(cands=cands))
    for st, _ in v.call(r'^hogl::tsobuf::resize\(unsigned int\)', [t, n]):
        p = v.get(st, t, TSO, '_entry', True)
        v.ensure(st, 'room for exactly that many entries, none held', AND(EQ(v.get(st, t, TSO, '_capacity'), n), EQ(v.get(st, t, TSO, '_head'), 0), EQ(v.get(st, t, TSO, '_tail'), 0), EQ(p.reg.size, simp(Z64(n) * v.size(TSE))) if isinstance(p, Ptr) else False))
        v.ensure(st, 'old storage is freed', old.reg.id in st.dead)
        v.cover('returns', st)

# ---- one pass over the rings -------------------------------------------------------------------
NORANGE = None
class Pass:
    """contracts of the iterator, ring, buffer and flush functions as ghost events; want selects the obligations"""
    def __init__(self, v, e, want, tso):
        self.v, self.e, self.want = v, e, want
        g = v.st.ghost
        g.update(pend=False, pendrec=z3.BitVecVal(0, 64), pas=z3.BitVecVal(0, 64), inpass=False, fetched=False, first=True, last=z3.BitVecVal(0, 64),
                 owe=False, bar=False, orph=False, emp=False, flushed=False, rewound=False, killed=False, cK=False, sK=False, nullK=False, oweidx=z3.BitVecVal(0, 64))
        self.K = v.sym('K', 64)
        v.assume(ULT(self.K, Z64(e.n)))
        idxof = lambda p: bv(aos_norm(p).idx, 64)
        def ob(st, c, name, cond):
            if cat(want, c):
                v.ex.oblige(st, name, cond, 'post')
            else:
                st.assume(cond)
        self.ob = ob
        def ringok(st, k, why):
            v.ex.oblige(st, 'a retired ring is not touched (%s)' % why, NOT(is_null(e.ix(st, k, 'ring'))), 'safety')
        def reset(ex, st, a, c):
            k = idxof(a[0])
            ringok(st, k, 'reset')
            ob(st, 'once', 'the record at hand is dealt with first', NOT(st.ghost['pend']))
            ob(st, 'unblock', 'writers of the ring given back room are told', NOT(st.ghost['owe']))
            st.ghost.update(pas=k, inpass=True, fetched=False, first=True, last=z3.BitVecVal(0, 64), orph=False, emp=False, sK=OR(st.ghost['sK'], EQ(k, self.K)), nullK=is_null(e.ix(st, self.K, 'ring')))
            return None
        def nxt(ex, st, a, c):
            k = idxof(a[0])
            ringok(st, k, 'next')
            ob(st, 'once', 'records are taken from the ring being processed, from its reading position on', AND(st.ghost['inpass'], EQ(k, st.ghost['pas'])))
            ob(st, 'once', 'the previous record is dealt with before the next is fetched', NOT(st.ghost['pend']))
            s2 = st.clone()
            r = Ptr(e.recs, 0, ex.fresh('rec', 64))
            st.assume(NOT(is_null(r)))
            st.ghost.update(pend=True, pendrec=r.idx, fetched=True, bar=False)
            return [(st, r), (s2, NULL)]
        def rewind(ex, st, a, c):
            k = idxof(a[0])
            ob(st, 'retire', 'a ring is only given back up to its last output record', AND(NOT(is_null(a[1])), ptr_eq(a[1], e.ix(st, k, 'lastrec'))))
            st.ghost.update(rewound=True, pas=k, inpass=False)
            return None
        def commit(ex, st, a, c):
            k = idxof(a[0])
            ringok(st, k, 'commit')
            if tso:
                ob(st, 'retire', 'slots are given back only after the time ordering buffer was flushed', st.ghost['flushed'])
                ob(st, 'retire', 'and only up to the last output record of that ring', AND(st.ghost['rewound'], EQ(k, st.ghost['pas'])))
            else:
                ob(st, 'retire', 'slots are given back for the ring being processed', AND(st.ghost['inpass'], EQ(k, st.ghost['pas'])))
            ob(st, 'retire', 'no fetched record is still to be output', NOT(st.ghost['pend']))
            ob(st, 'retire', 'reads of the records are complete (read barrier) before the slots are given back', OR(st.ghost['bar'], boolv(a[1])))
            ob(st, 'unblock', 'the previous give-back was announced', NOT(st.ghost['owe']))
            st.ghost.update(owe=True, rewound=False, oweidx=k, cK=OR(st.ghost['cK'], EQ(k, self.K)), fetched=False, inpass=False)
            return None
        def unblock(ex, st, a, c):
            st.ghost['owe'] = AND(st.ghost['owe'], NOT(ptr_eq(a[0], e.ix(st, st.ghost.get('oweidx', 0), 'ring'))))
            return None
        def push(ex, st, a, c):
            t = a[1]
            ts, rec, tag = (ex.peek(st, t.plus(v.off(TSE, f)[0]), v.off(TSE, f)[1], f == 'rec') for f in ('timestamp', 'rec', 'tag'))
            ts = bv(ts, 64)
            rts = bv(v.get(st, rec, REC, 'timestamp'), 64) if isinstance(rec, Ptr) and rec.reg is e.recs else None
            ob(st, 'once', 'each fetched record is put into the time ordering buffer', AND(st.ghost['pend'], rts is not None and EQ(bv(rec.idx, 64), st.ghost['pendrec'])))
            ob(st, 'once', 'tagged with the ring it came from', EQ(Z64(tag), st.ghost['pas']))
            ob(st, 'cap', 'the time ordering buffer has room', ULT(e.tail(st), e.cap))
            last = st.ghost['last']
            st.assume(z3.ULT(last, (1 << 64) - 1))
            if rts is not None:
                ob(st, 'order', 'records of one ring get strictly increasing order keys', OR(st.ghost['first'], z3.UGT(ts, last)))
                ob(st, 'order', 'the order key is the time stamp unless the ring went backwards', IMP(z3.UGT(rts, last), EQ(ts, rts)))
                ob(st, 'order', 'the order key is never before the time stamp', z3.UGE(ts, rts))
            e.setf(st, '_tso._tail', simp(e.tail(st) + 1))
            st.ghost.update(pend=False, last=ts, first=False)
            return None
        def flush_common(ex, st):
            ob(st, 'once', 'no record is left out of the time ordering buffer', NOT(st.ghost['pend']))
            st.ghost['bar'] = False
            e.havoc_ix(st, ('lastrec', 'seqnum'))
            for f in ('recs_dropped', 'recs_out', 'tso_full', 'timesource_changed'):
                e.setf(st, '_stats.' + f, ex.fresh(f, 64))
        def flush_full(ex, st, a, c):
            ob(st, 'cap', 'called with something held', ULT(e.head(st), e.tail(st)))
            flush_common(ex, st)
            w, n = e.window(st), ex.fresh('left', 32)
            st.assume(z3.ULT(n, w))
            e.setf(st, '_tso._head', 0)
            e.setf(st, '_tso._tail', n)
            e.setf(st, '_tso_leftover', 0)
            st.assume(ULE(w, e.cap))
            return None
        def flush(ex, st, a, c):
            flush_common(ex, st)
            e.setf(st, '_tso._head', 0)
            e.setf(st, '_tso._tail', 0)
            e.setf(st, '_tso_leftover', ex.fresh('leftover', 32))
            st.ghost.update(flushed=True, inpass=False)
            st.ghost[('post',)] = st.m(e.idx)
            return None
        def flush_record(ex, st, a, c):
            ob(st, 'once', 'each fetched record is output', AND(st.ghost['pend'], EQ(bv(a[2].idx, 64), st.ghost['pendrec'])))
            ob(st, 'once', 'for the ring it came from', EQ(Z64(a[1]), st.ghost['pas']))
            st.ghost.update(pend=False, bar=False)
            return None
        def orphan(ex, st, a, c):
            r = ex.fresh('orphan', 'bool')
            st.ghost.update(orph=AND(r, ptr_eq(a[0], e.ix(st, st.ghost['pas'], 'ring'))), emp=False)
            return r
        def empty(ex, st, a, c):
            r = ex.fresh('empty', 'bool')
            # a ring with fetched records that were not given back is not empty (R01)
            same = ptr_eq(a[0], e.ix(st, st.ghost['pas'], 'ring'))
            st.assume(IMP(AND(r, same), NOT(st.ghost['fetched'])))
            st.ghost['emp'] = AND(r, same, st.ghost['orph'])
            return r
        def kill(ex, st, a, c):
            ob(st, 'orphan', 'only a ring nobody else holds, and seen empty after that was seen, is retired', AND(st.ghost['orph'], st.ghost['emp']))
            ob(st, 'orphan', 'the ring retired is the one examined', AND(EQ(Z64(a[1]), st.ghost['pas']), ptr_eq(a[2], e.ix(st, st.ghost['pas'], 'ring'))))
            ob(st, 'orphan', 'none of its records is still to be output', AND(NOT(st.ghost['fetched']), NOT(st.ghost['pend'])))
            ob(st, 'unblock', 'the previous give-back was announced', NOT(st.ghost['owe']))
            s2 = st.clone()                    # the lock is busy: nothing happens
            e.setix(st, Z64(a[1]), 'ring', NULL)
            st.ghost.update(orph=False, emp=False, inpass=False)
            return [(st, None), (s2, None)]
        for rx, f in ((r'pop_iterator::reset\(\)$', reset), (r'pop_iterator::next\(\)$', nxt), (r'pop_iterator::rewind\(', rewind), (r'pop_iterator::commit\(', commit),
                      (r'^hogl::ringbuf::unblock\(', unblock), (r'^hogl::tsobuf::push\(', push), (r'^hogl::engine::flush_full_tso\(', flush_full), (r'^hogl::engine::flush_tso\(', flush),
                      (r'^hogl::engine::flush_record\(', flush_record), (r'^hogl::ringbuf::orphan\(', orphan), (r'^hogl::ringbuf::empty\(', empty), (r'^hogl::engine::kill_orphan\(', kill)):
            v.model(rx, f)
        def on_asm(ex, st, text, i):
            if i.op == 'fence' or '~{memory}' in i.a['callee'][2]:
                st.ghost['bar'] = True
        v.ex.on_asm.append(on_asm)
    def done(self, st, K):
        """give-back of ring K after the flush"""
        e = self.e
        m = st.ghost[('post',)]
        need = AND(NOT(is_null(e.ix(st, K, 'lastrec', m))), NOT(is_null(e.ix(st, K, 'ring', m))))
        return IMP(need, AND(st.ghost['cK'], is_null(e.ix(st, K, 'lastrec'))))
    def untouched(self, st, K):
        e = self.e
        return AND(NOT(st.ghost['cK']), *[val_eq(e.ix(st, K, f), e.ix(st, K, f, st.ghost[('post',)])) for f in ('lastrec', 'ring')])

def task_process(tso, want=None):
    def run(V):
        v = V('engine::process_rings_%s' % ('tso' if tso else 'notso'))
        e = Eng(v)
        ps = Pass(v, e, want, tso)
        if tso:
            e.setf(v.st, '_tso._head', 0)
            e.setf(v.st, '_tso._tail', 0)
        K = ps.K
        def inv(ex, st, lv):
            out = [('no record is pending', NOT(st.ghost['pend'])), ('every give-back was announced', NOT(st.ghost['owe']))]
            if tso:
                out.append(('the time ordering buffer has room', AND(ULT(e.tail(st), e.cap), EQ(e.head(st), 0))))
            return out
        def cands(ex, st, lv):
            out = [('orphan not pending', AND(NOT(st.ghost['orph']), NOT(st.ghost['emp'])))]
            flushed = ('post',) in st.ghost
            out.append(('this ring processed', IMP(EQ(st.ghost['pas'], K), st.ghost['sK'])))
            out.append(('registration of this ring unchanged', EQ(boolv(is_null(e.ix(st, K, 'ring'))), boolv(st.ghost['nullK']))))
            out.append(('in a pass', st.ghost['inpass']))
            out.append(('not flushed', NOT(st.ghost['flushed'])))
            out.append(('flushed', st.ghost['flushed']))
            out.append(('nothing of this ring given back', NOT(st.ghost['cK'])))
            out.append(('barrier done', st.ghost['bar']))
            out.append(('retirement order', IMP(st.ghost['first'], NOT(st.ghost['fetched']))))
            out.append(('current ring is registered', IMP(st.ghost['inpass'], AND(ULT(st.ghost['pas'], Z64(e.n)), NOT(is_null(e.ix(st, st.ghost['pas'], 'ring')))))))
            out.append(('last is zero at the start', IMP(st.ghost['first'], EQ(st.ghost['last'], 0))))
            for key, x in lv.ints():
                w = Z64(bv(x, 32)) if isc(x) else Z64(x)
                out.append(('%s counts the rings' % (key,), ULE(w, Z64(e.n))))
                out.append(('%s is the current ring' % (key,), EQ(w, st.ghost['pas'])))
                if not isc(x) and x.size() == 64 or isc(x):
                    y = bv(x, 64)
                    out.append(('%s is the last order key' % (key,), EQ(y, st.ghost['last'])))
                if not flushed:
                    out.append(('%s: rings before it processed' % (key,), IMP(ULT(K, w), OR(st.ghost['sK'], is_null(e.ix(st, K, 'ring'))))))
                if flushed:
                    out.append(('%s: rings before it given back' % (key,), IMP(ULT(K, w), ps.done(st, K))))
                    out.append(('%s: rings from it on untouched' % (key,), IMP(ULE(w, K), ps.untouched(st, K))))
            return out
        v.loop(r'', LoopSpec(inv=inv, cands=cands, auto=False))
        s0 = v.st.clone()
        outs = v.call(r'^hogl::engine::process_rings_%s\(\)$' % ('tso' if tso else 'notso'), [e.p])
        for st, _ in outs:
            ps.ob(st, 'once', 'no record is left behind', NOT(st.ghost['pend']))
            ps.ob(st, 'once', 'every registered ring is processed', OR(st.ghost['sK'], is_null(e.ix(st, K, 'ring', st.ghost[('post',)])) if ('post',) in st.ghost else is_null(e.ix(st, K, 'ring'))))
            ps.ob(st, 'unblock', 'every give-back was announced to blocked writers', NOT(st.ghost['owe']))
            if tso:
                ps.ob(st, 'once', 'the time ordering buffer is flushed every round', st.ghost['flushed'])
                if ('post',) in st.ghost and cat(want, 'retire'):
                    v.ensure(st, 'every ring with output records is given back up to the last of them', ps.done(st, K))
        v.cover_exists('returns', [(st, True) for st, _ in outs])
        if tso:
            v.cover_exists('a ring is given back', [(st, st.ghost['cK']) for st, _ in outs])
    return run

# ---- handing one record to the output ----------------------------------------------------------
SPR_FLUSH, SPR_TS = 0, 1
DATA = 'hogl::format::data'
def task_flush_record(want=None):
    def run(V):
        v = V('engine::flush_record')
        e = Eng(v)
        out = v.obj('hogl::output', 'output')
        e.setf(v.st, '_output', out)
        i = v.sym('i', 32)
        v.assume(z3.ULT(i, e.n))
        ring = e.ix(v.st, i, 'ring')
        v.assume(NOT(is_null(ring)))
        r = Ptr(e.recs, 0, v.sym('rec', 64))
        v.assume(NOT(is_null(r)))
        v.st.ghost[('ev',)] = ()
        area0 = bv(v.get(v.st, r, REC, 'area'), 64)
        special = AND(EQ(area0, 0), EQ(e.rec(v.st, r, 'section'), 0xfff))
        def ev(st, *x):
            st.ghost[('ev',)] = st.ghost[('ev',)] + (x,)
        def process(ex, st, a, c):
            d = a[1]
            ev(st, 'process', v.get(st, d, DATA, 'ring_name', True), v.get(st, d, DATA, 'record', True))
        def switch(ex, st, a, c):
            ev(st, 'switch', a[1], a[2])
        def ack(ex, st, a, c):
            ev(st, 'ack', a[0])
        v.model(r'^hogl::output::process\(', process)
        v.model(r'^hogl::engine::switch_timesource\(', switch)
        v.model(r'^hogl::record::ack\(', ack)
        s0 = v.st.clone()
        outs = v.call(r'^hogl::engine::flush_record\(', [e.p, i, r])
        for st, _ in outs:
            evs = st.ghost[('ev',)]
            kinds = [x[0] for x in evs]
            if 'process' in kinds:
                if cat(want, 'once'):
                    v.ensure(st, 'a regular record is output exactly once', AND(NOT(special), kinds.count('process') == 1))
                    x = evs[kinds.index('process')]
                    v.ensure(st, 'it is this record', ptr_eq(x[2], r))
                    v.ensure(st, 'under the name of its ring', ptr_eq(x[1], Ptr(e.names, 0, bv(v.get(s0, ring, RB, '_name'), 64))))
                if cat(want, 'ack'):
                    v.ensure(st, 'a special record is never shown', NOT(special))
                    v.ensure(st, 'only special records are acknowledged', 'ack' not in kinds and 'switch' not in kinds)
            else:
                if cat(want, 'once'):
                    v.ensure(st, 'a regular record is output exactly once', special)
                if cat(want, 'ack'):
                    v.ensure(st, 'a special record is acknowledged exactly once', kinds.count('ack') == 1)
                    if 'ack' in kinds:
                        v.ensure(st, 'the record acknowledged is this one', ptr_eq(evs[kinds.index('ack')][1], r))
                    v.ensure(st, 'the acknowledgement comes last', bool(kinds) and kinds[-1] == 'ack')
                    sw = [x for x in evs if x[0] == 'switch']
                    ts = EQ(v.get(s0, r, REC, 'argtype'), SPR_TS)
                    v.ensure(st, 'the time source is switched exactly for a time source change', EQ(ts, len(sw) == 1) if len(sw) < 2 else False)
                    if sw:
                        v.ensure(st, 'switch is told the ring and the record', AND(ptr_eq(sw[0][1], ring), ptr_eq(sw[0][2], r)))
            if cat(want, 'once'):
                v.ensure(st, 'counted as output', EQ(e.getf(st, '_stats.recs_out'), simp(bv(e.getf(s0, '_stats.recs_out'), 64) + 1)))
        v.cover_exists('regular', [(st, NOT(special)) for st, _ in outs])
        v.cover_exists('special', [(st, special) for st, _ in outs])
        v.cover_exists('switch', [(st, AND(special, EQ(v.get(s0, r, REC, 'argtype'), SPR_TS))) for st, _ in outs])
    return run
