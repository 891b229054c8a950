from enginelib import *
from mapmodel import StdMap
from hv import cxx
import importlib, sys
_r6 = importlib.import_module('R06')
_r1 = importlib.import_module('R01')
UNITS = dict(_r6.UNITS, ring='$VERIF/units/ring.cc', engine='$REPO/src/engine.cc')
TRUSTED = ['std::sort permutes the range it is given', 'std::map iteration visits every entry once (map contract)', 'operator new[] does not fail', 'mutex contracts',
           'set_args, ringbuf::push_commit and area::test by the contracts proved in R05, R01, R12']
ASSUMPTIONS = ['fewer than 2^52 posts to one ring', 'at most 2^20 rings', 'the iterator operations by the contracts proved in R01']

def task_index(V):
    """ring_index::operator()(ringbuf*) finds exactly the entry of that ring"""
    v = V('ring_index::find')
    e = Eng(v)
    this = v.fptr(e.p, ENG, '_ring_index')
    r = Ptr(e.rings, 0, v.sym('ring', 64))
    v.assume(NOT(is_null(r)))
    J = v.sym('J', 64)
    def cands(ex, st, lv):
        out = []
        for key, x in lv.ints():
            w = Z64(bv(x, 32)) if isc(x) else Z64(x)
            out.append(('%s counts the entries' % (key,), ULE(w, Z64(e.n))))
            out.append(('%s: no entry before it is this ring' % (key,), IMP(ULT(J, w), NOT(ptr_eq(e.ix(st, J, 'ring'), r)))))
        return out
    v.loop(r'', LoopSpec(cands=cands))
    s0 = v.st.clone()
    outs = v.call(r'^hogl::engine::ring_index::operator\(\)\(hogl::ringbuf\*\)$', [this, r])
    for st, p in outs:
        if is_null(p) is True:
            v.ensure(st, 'nothing is returned only if no entry is this ring', IMP(ULT(J, Z64(e.n)), NOT(ptr_eq(e.ix(st, J, 'ring'), r))))
        else:
            q = aos_norm(p)
            v.ensure(st, 'the entry returned is one of the index and is this ring', AND(p.reg is e.idx, q.off == 0, ULT(bv(q.idx, 64), Z64(e.n)), ptr_eq(e.ix(st, q.idx, 'ring'), r)))
        v.frame_regions(st, s0, [])
    v.cover_exists('found', [(st, NOT(is_null(p))) for st, p in outs])
    v.cover_exists('not found', [(st, is_null(p)) for st, p in outs])

def task_rebuild(V):
    v = V('engine::rebuild_ring_index')
    e = Eng(v)
    ex = v.ex
    e.idx.heap = True
    lock = v.fptr(e.p, ENG, '_ring_mutex')
    rmap = StdMap(v, v.fptr(e.p, ENG, '_ring_map'), 'ring', e.rings, 'hogl::ringbuf')
    LF = z3.Function('indexed', z3.BitVecSort(64), z3.BoolSort())
    LI = z3.Function('index_of', z3.BitVecSort(64), z3.BitVecSort(64))
    P = v.sym('P', 64)
    box = {}
    m0 = v.st.m(e.idx)
    def lookup(ex, st, a, c):
        r = a[1] if isinstance(a[1], Ptr) else ex.toptr(st, a[1])
        k = bv(r.idx, 64)
        ex.oblige(st, 'the old index is searched', EQ(ex.peek(st, a[0].plus(v.off('hogl::engine::ring_index', 'count')[0]), 4), e.n), 'pre')
        s2 = st.clone()
        st.assume(LF(k)); st.assume(z3.ULT(LI(k), Z64(e.n)))
        st.assume(ptr_eq(e.ix(st, LI(k), 'ring', m0), r))
        s2.assume(z3.Not(LF(k)))
        return [(st, Ptr(e.idx, 0, LI(k))), (s2, NULL)]
    v.model(r'^hogl::engine::ring_index::operator\(\)\(hogl::ringbuf\*\)$', lookup)
    def newarr(ex, st, a, c):
        sz = simp(rmap.N * e.ixs)
        ex.oblige(st, 'an entry for every registered ring', EQ(a[0], sz), 'post')
        r = ex.region('new_index', sz, 'aos'); r.stride = e.ixs; r.count = rmap.N; r.heap = True
        r.famtype.update(e.idx.famtype)
        box['r'] = r
        return Ptr(r, 0)
    v.model(r'^operator new\[\]\(unsigned long\)$', newarr)
    def rd(st, i, f):
        o, n = e.io[f]
        return st.m(box['r']).read(bv(i, 64), o, n, f in ('ring', 'lastrec'))
    def right(st):
        """entry P of the new index is the entry of ring P"""
        ring = rmap.val(st, simp(P + 1))
        k = bv(ring.idx, 64)
        return AND(ptr_eq(rd(st, P, 'ring'), ring), is_null(rd(st, P, 'lastrec')), EQ(rd(st, P, 'seqnum'), ITE(LF(k), bv(e.ix(st, LI(k), 'seqnum', m0), 64), z3.BitVecVal(0, 64), 64)))
    def sort(ex, st, a, c):
        q = aos_norm(a[0]), aos_norm(a[1])
        ex.oblige(st, 'the whole new index is sorted', AND(q[0].reg is box.get('r'), EQ(q[0].idx, 0), EQ(q[1].idx, rmap.N), q[0].off == 0, q[1].off == 0), 'pre')
        ex.oblige(st, 'every registered ring has an entry: its own expected sequence number if it was indexed before, 0 otherwise, nothing fetched', IMP(ULT(P, rmap.N), right(st)), 'post')
        st.ghost['sorted'] = True
        return None
    v.model(r'^void std::sort<hogl::engine::ring_index::entry\*', sort)
    v.st.ghost['sorted'] = False
    po = v.off('hogl::ringbuf::pop_iterator', '_ring')[0]
    def cands(ex, st, lv):
        out = []
        its = []
        for key, p in lv.cur.items():
            if isinstance(p, Ptr) and p.reg.kind == 'aos':
                q = aos_norm(p)
                out.append(('%s is inside the new storage' % (key,), ULT(bv(q.idx, 64), bv(p.reg.count, 64))))
            if isinstance(p, Ptr) and p.reg is rmap.nodes:
                its.append((key, bv(p.idx, 64)))
        for rid, m in st.mem.items():
            if m.reg.kind == 'obj' and m.reg.size == 8:
                try:
                    p = m.read(None, 0, 8, True)
                except Exception:
                    continue
                if isinstance(p, Ptr) and p.reg is rmap.nodes:
                    its.append((m.reg.name, bv(p.idx, 64)))
        for key, x in lv.ints():
            w = Z64(bv(x, 32)) if isc(x) else Z64(x)
            out.append(('%s counts the rings' % (key,), ULE(w, rmap.N)))
            for k2, i in its:
                out.append(('%s is at ring %s' % (k2, key), EQ(i, simp(w + 1))))
            if 'r' in box and box['r'].id in st.mem:
                out.append(('%s: entries before it are right' % (key,), IMP(ULT(P, w), right(st))))
        if 'r' in box and box['r'].id in st.mem:
            out.append(('entry P is right', IMP(ULT(P, rmap.N), right(st))))
        return out
    v.loop(r'', LoopSpec(cands=cands))
    v.st.ghost['locks'] = frozenset([lib.lockkey(lock)])
    outs = v.call(r'^hogl::engine::rebuild_ring_index\(\)$', [e.p])
    for st, _ in outs:
        v.ensure(st, 'the index in use is the new one, complete and clean', AND(st.ghost['sorted'] is True, ptr_eq(e.getf(st, '_ring_index.entries', True), Ptr(box['r'], 0)) if 'r' in box else False,
                 EQ(Z64(e.getf(st, '_ring_index.count')), rmap.N), EQ(e.getf(st, '_ring_index.dirty'), 0)))
        v.ensure(st, 'the old index is freed, the new one is not', AND(e.idx.id in st.dead, box['r'].id not in st.dead if 'r' in box else False))
        v.ensure(st, 'the lock is still held', lib.lockkey(lock) in lib.held(st))
    v.cover_exists('rings', [(st, rmap.N == 3) for st, _ in outs])

def task_inject(V):
    """the record that announces a gap says so"""
    base = V('engine::inject_record')
    for fn in base.cands(r'^hogl::engine::inject_record\('):
        strs = 'char const*, char const*, char const*)' in ir.demangle(fn[1:])
        v = V('engine::inject_record(%s)' % ('strings' if strs else 'numbers'))
        e = Eng(v)
        ex = v.ex
        out = v.obj('hogl::output', 'output')
        e.setf(v.st, '_output', out)
        nm = Ptr(ex.region('name', 64, 'obj'), 0)
        fmt = Ptr(ex.region('format', 64, 'obj'), 0)
        ts = v.sym('ts', 64); seq = v.sym('seq', 64); sect = v.sym('section', 32)
        v.assume(z3.ULT(sect, 0xfff)); v.assume(z3.ULT(seq, 1 << 52))
        if strs:
            A = [Ptr(ex.region('s%d' % k, 64, 'obj'), 0) for k in (0, 1)]
        else:
            A = [v.sym('a%d' % k, 64) for k in (0, 1)]
        f = ex.fn[fn]
        v.st.ghost[('sa',)] = ()
        v.st.ghost[('pr',)] = ()
        def setargs(ex, st, a, c):
            st.ghost[('sa',)] += ((a[0], a[1], tuple(tuple(v.get(st, p, 'hogl::arg', g, g == 'val') for g in ('type', 'val')) for p in a[2:])),)
        v.model(r'^hogl::record::set_args\(', setargs)
        def process(ex, st, a, c):
            d = a[1]
            r = v.get(st, d, DATA, 'record', True)
            st.ghost[('pr',)] += ((v.get(st, d, DATA, 'ring_name', True), r, v.get(st, r, REC, 'area', True), v.get(st, r, REC, 'timestamp'), e.rec(st, r, 'seqnum'), e.rec(st, r, 'section'), len(st.ghost[('sa',)])),)
        v.model(r'^hogl::output::process\(', process)
        targ = v.obj('hogl::timestamp', 'ts')
        ex.poke(v.st, targ, 8, ts)
        outs = v.call(fn, [e.p, nm, targ, seq, sect, fmt] + A)
        for st, _ in outs:
            pr, sa = st.ghost[('pr',)], st.ghost[('sa',)]
            v.ensure(st, 'exactly one record is output', len(pr) == 1)
            v.ensure(st, 'its arguments are stored once, before', AND(len(sa) == 1, bool(pr) and pr[0][6] == 1))
            if len(pr) == 1 and len(sa) == 1:
                n, r, a, t, q, s, _k = pr[0]
                v.ensure(st, 'under the given ring name', ptr_eq(n, nm))
                v.ensure(st, "in the engine's own area and the given section", AND(ptr_eq(a, e.iarea), EQ(Z64(s), Z64(sect))))
                v.ensure(st, 'with the given time stamp', EQ(t, ts))
                v.ensure(st, 'into the record that is output', ptr_eq(sa[0][0], r))
                v.ensure(st, 'nothing is copied behind the record', EQ(sa[0][1], 0))
                g = sa[0][2]
                v.ensure(st, 'the text comes first', val_eq(adr(g[0][1]), adr(fmt)))
                v.ensure(st, 'then the first number', val_eq(adr(g[1][1]), adr(A[0])))
        v.cover_exists('returns', [(st, True) for st, _ in outs])

def task_sum(V):
    """gaps announced per ring add up to the missing sequence numbers (induction step of the history argument)"""
    v = V('gap sum')
    S, E, seq, exp = [v.sym(n, 64) for n in ('sum', 'out', 'seq', 'exp')]
    # invariant: announced gaps + records output = expected sequence number
    v.lemma('records output plus gaps announced stay equal to the expected sequence number', EQ(simp(S + (seq - exp)) + (E + 1), simp(seq + 1)), [S + E == exp])

_posting = [(n, f) for n, f in _r6.TASKS]
_commit = [(n, f) for n, f in _r1.TASKS if 'commit' in n or 'push' in n]
TASKS = [('index', task_index), ('rebuild', task_rebuild), ('inject', task_inject), ('sum', task_sum), ('flush_full', task_flush_full({'gap'})), ('flush_tso', task_flush_tso({'gap'}))] + _posting + _commit
REPLAY = {'src': 'R07.cc', 'timeout': 200, 'libs': ['-Wl,--wrap=pthread_create,--wrap=pthread_join']}
