"""Shared pre-states and ghost monitors for hogl::ringbuf."""
from hv.sym import *
from hv import lib, ir
import z3

RB = 'hogl::ringbuf'
PIT = 'hogl::ringbuf::pop_iterator'
SHARED, IMMORTAL, REUSABLE, BLOCKING = 1, 2, 4, 8

class Ring:
    """a well-formed ring: C = _capacity is 2^k-1, head,tail <= C, slots region of (C+1)<<shift bytes (< 4 GiB)"""
    def __init__(self, v, st=None, name='ring', minC=1):
        self.v = v
        st = st or v.st
        ex = v.ex
        self.p = v.obj(RB, name)
        self.C = v.sym(name + '.mask', 32)
        self.shift = v.sym(name + '.shift', 32)
        C64 = z3.ZeroExt(32, self.C)
        self.slots = v.buf(name + '.slots', simp((C64 + 1) << z3.ZeroExt(32, self.shift)))
        v.assume((self.C & (self.C + 1)) == 0, st)
        v.assume(z3.UGE(self.C, minC), st)
        v.assume(z3.ULE(self.C, 0x7fffffff), st)
        v.assume(z3.UGE(self.shift, 6), st)
        v.assume(z3.ULE(self.shift, 30), st)
        v.assume(z3.ULE((C64 + 1) << z3.ZeroExt(32, self.shift), 1 << 32), st)
        self.h0 = v.sym(name + '.head', 32)
        self.t0 = v.sym(name + '.tail', 32)
        v.assume(z3.ULE(self.h0, self.C), st)
        v.assume(z3.ULE(self.t0, self.C), st)
        self.flags = v.sym(name + '.flags', 32)
        self.drop0 = v.sym(name + '.dropcnt', 64)
        self.seq0 = v.sym(name + '.seqnum', 64)
        for f, x in (('_capacity', self.C), ('_rec_shift', self.shift), ('_rec_top', self.slots), ('_head', self.h0), ('_tail', self.t0),
                     ('_flags', self.flags), ('_dropcnt', self.drop0), ('_seqnum', self.seq0)):
            v.set(st, self.p, RB, f, x)
        self.offs = {f: v.off(RB, f) for f in ('_head', '_tail', '_seqnum', '_dropcnt', '_block_active', '_timesource')}
    def head(self, st):
        return self.v.get(st, self.p, RB, '_head')
    def tail(self, st):
        return self.v.get(st, self.p, RB, '_tail')
    def f(self, st, n, isptr=False):
        return self.v.get(st, self.p, RB, n, isptr)
    def unread(self, h, t):
        return (bv(t, 32) - bv(h, 32) - 1) & self.C
    def slot(self, i):
        """byte offset of slot i"""
        return simp(z3.ZeroExt(32, bv(i, 32)) << z3.ZeroExt(32, self.shift))
    def is_field(self, p, f):
        return p.reg is self.p.reg and isc(p.off) and p.off == self.offs[f][0]
    # ---- rely conditions
    def step_head(self, st):
        """the reader may have popped some unread records"""
        h = self.head(st)
        h2 = self.v.fresh('head', 32)
        t = self.tail(st)
        st.assume(z3.ULE(h2, self.C))
        st.assume(z3.ULE(self.unread(h2, t), self.unread(h, t)))
        self.v.set(st, self.p, RB, '_head', h2)
    def step_tail(self, st):
        """the writer may have pushed into free slots"""
        t = self.tail(st)
        t2 = self.v.fresh('tail', 32)
        h = self.head(st)
        st.assume(z3.ULE(t2, self.C))
        st.assume(z3.UGE(self.unread(h, t2), self.unread(h, t)))
        self.v.set(st, self.p, RB, '_tail', t2)
    def as_writer(self):
        """this thread is the writer: _head is the other side's variable"""
        ex = self.v.ex
        ring = self
        def on_load(ex, st, p, n, i):
            if ring.is_field(p, '_head'):
                ex.oblige(st, "the reader's index is read as a shared (volatile/atomic) location", bool(i.volatile or 'atomic' in i.flags), 'shared')
                ring.step_head(st)
                st.ghost['seen_head'] = ring.head(st)
        def on_store(ex, st, p, n, v, i):
            if ring.is_field(p, '_head'):
                ex.oblige(st, "the writer never stores the reader's index", False, 'shared')
            if ring.is_field(p, '_tail'):
                ex.oblige(st, "the write index is published as a shared (volatile/atomic) store", bool(i.volatile or 'atomic' in i.flags), 'shared')
                if not st.ghost.get('nobar', False):
                    rel = 'atomic' in i.flags and any(o in i.text for o in (' release', ' seq_cst'))
                    ex.oblige(st, 'record contents are made visible (write barrier) before the write index is published', bool(not st.ghost.get('dirty', True) or rel), 'barrier')
                st.ghost['tail_stores'] = st.ghost.get('tail_stores', 0) + 1
        def on_asm(ex, st, text, i):
            if is_barrier(text, i, 'w'):
                st.ghost['dirty'] = False
        ex.on_load.append(on_load)
        ex.on_store.append(on_store)
        ex.on_asm.append(on_asm)
    def as_reader(self):
        ex = self.v.ex
        ring = self
        def on_load(ex, st, p, n, i):
            if ring.is_field(p, '_tail'):
                ex.oblige(st, "the writer's index is read as a shared (volatile/atomic) location", bool(i.volatile or 'atomic' in i.flags), 'shared')
                ring.step_tail(st)
                st.ghost['seen_tail'] = ring.tail(st)
        def on_store(ex, st, p, n, v, i):
            if ring.is_field(p, '_tail'):
                ex.oblige(st, "the reader never stores the writer's index", False, 'shared')
            if ring.is_field(p, '_head'):
                ex.oblige(st, "the read index is published as a shared (volatile/atomic) store", bool(i.volatile or 'atomic' in i.flags), 'shared')
                if not st.ghost.get('nobar', False):
                    rel = 'atomic' in i.flags and any(o in i.text for o in (' release', ' seq_cst'))
                    ex.oblige(st, 'reads of the records are complete (read barrier) before the slots are given back', bool(not st.ghost.get('dirty', True) or rel), 'barrier')
                st.ghost['head_stores'] = st.ghost.get('head_stores', 0) + 1
        def on_asm(ex, st, text, i):
            if is_barrier(text, i, 'r'):
                st.ghost['dirty'] = False
        ex.on_load.append(on_load)
        ex.on_store.append(on_store)
        ex.on_asm.append(on_asm)

def is_barrier(text, i, kind):
    """x86: a compiler barrier orders stores with stores and loads with later stores; the fence instructions include one"""
    if i.op == 'fence':
        return any(k in text for k in ('release', 'acq_rel', 'seq_cst') + (('acquire',) if kind == 'r' else ()))
    return '~{memory}' in i.a['callee'][2]

def is_full_barrier(text, i):
    if i.op == 'fence':
        return 'seq_cst' in text and 'singlethread' not in text
    return '~{memory}' in i.a['callee'][2] and ('mfence' in text or text.strip().startswith('lock'))
