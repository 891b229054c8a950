"""Contracts of the area and ring registries of hogl::engine (used by R13, R14, R16)."""
from enginelib import *
from mapmodel import StdMap
from hv import cxx
import z3

class Reg:
    """engine with its two registries; operations on rings and areas are recorded as events
       (kind, object, locked, ...)"""
    def __init__(self, v):
        self.v = v
        e = self.e = Eng(v)
        ex = v.ex
        cxx.install(v)
        self.areas = fam(ex, 'area', v.size(AREA))
        self.rlock, self.alock = v.fptr(e.p, ENG, '_ring_mutex'), v.fptr(e.p, ENG, '_area_mutex')
        self.maskp = v.fptr(e.p, ENG, '_mask')
        self.rmap = StdMap(v, v.fptr(e.p, ENG, '_ring_map'), 'ring', e.rings, 'hogl::ringbuf', self.rlock)
        self.amap = StdMap(v, v.fptr(e.p, ENG, '_area_map'), 'area', self.areas, 'hogl::area', self.alock)
        self.ts = fam(ex, 'timesource', v.size('hogl::timesource'))
        e.setf(v.st, '_timesource', Ptr(self.ts, 0, v.sym('timesource', 64)))
        v.st.ghost[('rg',)] = ()
        fo = v.off(RB, '_flags')
        rco = v.off(RB, '_refcnt')[0]
        def log(kind):
            def f(ex, st, a, c):
                self.log(st, kind, *a)
                return None
            return f
        def hold(ex, st, a, c):
            self.log(st, 'hold', a[0])
            return a[0]
        def settime(ex, st, a, c):
            self.log(st, 'timesource', a[0], a[1], e.getf(st, '_timesource', True))
            self.on_settime(st, a[0], a[1])
            return None
        def refcnt(ex, st, a, c):
            n = ex.fresh('refcnt', 32)
            self.log(st, 'refcnt', a[0], n)
            return n
        def orphan(ex, st, a, c):
            b = ex.fresh('orphan', 'bool')
            self.log(st, 'orphan', a[0], b)
            return b
        def empty(ex, st, a, c):
            b = ex.fresh('empty', 'bool')
            self.log(st, 'empty', a[0], b)
            return b
        def newring(ex, st, a, c):
            r = ex.region('newring', v.size(RB), 'obj')
            r.heap = True
            r.cls = RB
            st.ghost['heap'] = st.ghost.get('heap', frozenset()) | {r.id}
            self.log(st, 'alloc', Ptr(r, 0))
            return Ptr(r, 0)
        def ringctor(ex, st, a, c):
            self.log(st, 'ringctor', a[0], a[1], a[2])
            v.set(st, a[0], RB, '_flags', v.get(st, a[2], 'hogl::ringbuf::options', 'flags'))
            v.set(st, a[0], RB, '_name', Ptr(self.e.names, 0, 1))
            return None
        def areactor(ex, st, a, c):
            self.log(st, 'areactor', a[0], a[1], a[2])
            return None
        def same(ex, st, a, c):
            b = ex.fresh('same_sections', 'bool')
            self.log(st, 'same', a[0], a[1], b)
            return b
        def apply(ex, st, a, c):
            self.log(st, 'apply', a[1], a[0])
            self.on_apply(st, a[0], a[1])
            return None
        def assign(ex, st, a, c):
            self.log(st, 'assign', a[0], a[1])
            return a[0]
        def ringdtor(ex, st, a, c):
            n = nmcount(v, st, self, a[0], 'hold') - nmcount(v, st, self, a[0], 'release')
            ex.oblige(st, 'a ring is destroyed only without references', EQ(simp(n), 0), 'pre')
            self.log(st, 'ringdtor', a[0])
            return None
        def rdel(ex, st, a, c):
            self.log(st, 'ringfree', a[0])
            return lib._free(ex, st, a, c)
        for rx, f in ((r'^hogl::ringbuf::hold\(\)$', hold), (r'^hogl::ringbuf::release\(\) const$', log('release')), (r'^hogl::ringbuf::timesource\(hogl::timesource\*\)$', settime),
                      (r'^hogl::ringbuf::refcnt\(\) const$', refcnt), (r'^hogl::ringbuf::orphan\(\) const$', orphan), (r'^hogl::ringbuf::empty\(\) const$', empty),
                      (r'^hogl::ringbuf::operator new\(unsigned long\)$', newring), (r'^hogl::ringbuf::operator delete\(void\*\)$', rdel),
                      (r'^hogl::ringbuf::ringbuf\(char const\*, ', ringctor), (r'^hogl::ringbuf::~ringbuf\(\)$', ringdtor),
                      (r'^hogl::area::area\(char const\*, ', areactor), (r'^hogl::area::~area\(\)$', log('areadtor')), (r'^hogl::area::operator==\(', same),
                      (r'^hogl::area::operator!=\(', lambda ex, st, a, c: NOT(same(ex, st, a, c))),
                      (r'^hogl::mask::apply\(hogl::area\*\) const$', apply), (r'^hogl::mask::operator=\(hogl::mask const&\)$', assign),
                      (r'^hogl::post(_unlocked)?\(', log('post')), (r'^hogl::arg::arg\(', lambda ex, st, a, c: None), (r'^hogl::ringbuf::(prio|capacity|record_size)\(\) const$', lambda ex, st, a, c: ex.fresh('x', 32)),
                      (r'^hogl::area::(count)\(\) const$', lambda ex, st, a, c: ex.fresh('x', 32)),
                      (r'^hogl::engine::rebuild_ring_index\(\)$', log('rebuild')), (r'^hogl::engine::inject_record\(', log('inject')), (r'^hogl::timesource::name\(\) const$', lambda ex, st, a, c: Ptr(self.e.names, 0, 2)),
                      (r'^hogl::engine::process_rings_(tso|notso)\(\)$', log('process')), (r'^hogl::output::flush\(\)$', log('outflush'))):
            v.model(rx, f)
        def areaname(ex, st, a, c):
            q = v.get(st, a[0], AREA, '_name')
            return Ptr(self.e.names, 0, bv(q, 64))
        v.model(r'^hogl::area::name\(\) const$', areaname)
        # other threads act on the registries whenever the lock is free
        def on_lock(ex, st, p):
            if ptr_eq(p, self.rlock) is True:
                e.setf(st, '_timesource', Ptr(self.ts, 0, ex.fresh('timesource', 64)))
                e.setf(st, '_ring_index.dirty', ITE(ex.fresh('dirty', 'bool'), z3.BitVecVal(1, 8), bv(e.getf(st, '_ring_index.dirty'), 8), 8))
            self.log(st, 'lock', p)
        def on_unlock(ex, st, p):
            self.log(st, 'unlock', p, e.getf(st, '_timesource', True))
        ex.on_lock = getattr(ex, 'on_lock', []) + [on_lock]
        ex.on_unlock = getattr(ex, 'on_unlock', []) + [on_unlock]
        self.on_settime = lambda st, r, t: None
        self.on_apply = lambda st, m, a: None
        # the time source and the mask of the engine belong to the locks
        self.guard_fields = True
        to, mo = v.off(ENG, '_timesource')[0], v.off(ENG, '_mask')
        def on_load(ex, st, p, n, i):
            if p.reg is e.p.reg and isc(p.off) and p.off == to:
                st.ghost[('tsread',)] = self.rmap.locked(st)
        def on_store(ex, st, p, n, val, i):
            if p.reg is e.p.reg and isc(p.off) and p.off == to:
                ex.oblige(st, 'the current time source is changed under the ring lock', self.rmap.locked(st), 'lock')
        ex.on_load.append(on_load)
        ex.on_store.append(on_store)
    def log(self, st, kind, *a):
        st.ghost[('rg',)] = st.ghost.get(('rg',), ()) + ((kind, self.rmap.locked(st), self.amap.locked(st)) + a,)
    def ev(self, st, *kinds):
        """events: (kind, rlocked, alocked, args...)"""
        return [x for x in st.ghost.get(('rg',), ()) if not kinds or x[0] in kinds]
    def balanced(self, st):
        self.v.ensure(st, 'every lock is released', not lib.held(st))

def flagset(v, st, r, f):
    return NE(simp(bv(v.get(st, r, RB, '_flags'), 32) & f), 0)
SHARED, IMMORTAL, REUSABLE = 1, 2, 4
opt_cls = 'hogl::ringbuf::options'

def nmcount(v, st, g, r, kind):
    """how often `kind` happened to ring r"""
    n = z3.BitVecVal(0, 32)
    for x in g.ev(st, kind):
        n = n + z3.If(ptr_eq(x[3], r) if not isinstance(ptr_eq(x[3], r), bool) else z3.BoolVal(ptr_eq(x[3], r)), z3.BitVecVal(1, 32), z3.BitVecVal(0, 32))
    return simp(n)

# ---- add_ring(name, options) -------------------------------------------------------------------
def task_add_ring(want=None):
    def run(V):
        v = V('engine::add_ring(name, options)')
        g = Reg(v)
        e = g.e
        nm = Ptr(e.names, 0, v.sym('name', 64))
        v.assume(NOT(is_null(nm)))
        opts = v.obj(opt_cls, 'options')
        outs = v.call(r'^hogl::engine::add_ring\(char const\*, hogl::ringbuf::options const&\)$', [e.p, nm, opts])
        for st, r in outs:
            ins = [x for x in g.rmap.ops(st) if x[0] == 'insert']
            g.balanced(st)
            ok1 = len(ins) == 1
            if cat(want, 'reg'):
                v.ensure(st, 'one registration attempt', ok1)
            if not ok1:
                continue
            _, key, val, new, node, cur = ins[0]
            made = g.ev(st, 'ringctor')
            if cat(want, 'reg'):
                v.ensure(st, 'the ring is made with the given name and options', len(made) == 1 and AND(ptr_eq(made[0][4], nm), ptr_eq(made[0][5], opts), ptr_eq(made[0][3], val)))
                v.ensure(st, 'registered under the given name', cxx.str_eq(key, cxx.Str(('c', nm))))
            H = simp(nmcount(v, st, g, cur, 'hold') - nmcount(v, st, g, cur, 'release'))
            if new:
                if cat(want, 'reg'):
                    v.ensure(st, 'a new name returns the new ring', ptr_eq(r, val))
                    v.ensure(st, 'one reference for the registry and one for the caller', EQ(H, 2))
                    v.ensure(st, 'the new ring is alive', AND(not g.ev(st, 'ringdtor', 'ringfree'), val.reg.id not in st.dead))
                    v.ensure(st, 'the reading side is told', EQ(e.getf(st, '_ring_index.dirty'), 1))
                    hl = [x for x in g.ev(st, 'hold') if x[1]]
                    v.ensure(st, 'both references are taken before the lock is released', len(hl) == 2)
                if cat(want, 'ts'):
                    t = [x for x in g.ev(st, 'timesource') if x[1]]
                    un = [x for x in g.ev(st, 'unlock') if ptr_eq(x[3], g.rlock) is True]
                    v.ensure(st, "a new ring gets the engine's time source under the lock under which it is registered", bool(t) and bool(un) and AND(ptr_eq(t[-1][3], val), ptr_eq(t[-1][4], un[-1][4])))
            else:
                if cat(want, 'reg'):
                    v.ensure(st, 'a ring that is not registered is destroyed, once', AND(len(g.ev(st, 'ringdtor')) == 1, len(g.ev(st, 'ringfree')) == 1, val.reg.id in st.dead) if not g.ev(st, 'release') or not [x for x in g.ev(st, 'release') if ptr_eq(x[3], val) is True] else
                             AND(NOT(flagset(v, st, val, IMMORTAL)), EQ(nmcount(v, st, g, val, 'hold'), nmcount(v, st, g, val, 'release')), not g.ev(st, 'ringdtor', 'ringfree')))
                    seen = [x for x in g.ev(st, 'refcnt') if ptr_eq(x[3], cur) is not False]
                    alone = OR(*[EQ(x[4], 2) for x in seen]) if seen else False
                    okret = OR(flagset(v, st, cur, SHARED), AND(flagset(v, st, cur, REUSABLE), alone))
                    if is_null(r) is True:
                        v.ensure(st, 'a registered ring that is shared, or reusable without owner, is returned', NOT(okret))
                        v.ensure(st, 'a failed registration leaves the reference count as it was', EQ(H, 0))
                        v.ensure(st, 'the failure is reported', len(g.ev(st, 'post')) >= 0)
                    else:
                        v.ensure(st, 'the ring returned is the registered one', ptr_eq(r, cur))
                        v.ensure(st, 'a registered ring is returned only if it is shared, or reusable with no owner left', okret)
                        v.ensure(st, 'the caller gets one reference', EQ(H, 1))
                        hl = [x for x in g.ev(st, 'hold') if x[1] and ptr_eq(x[3], cur) is not False]
                        v.ensure(st, 'which is taken before the lock is released', len(hl) == 1)
                    v.ensure(st, 'the count is examined while holding a reference', True)
                if cat(want, 'ts'):
                    v.ensure(st, 'a registered ring keeps its time source', not [x for x in g.ev(st, 'timesource') if ptr_eq(x[3], val) is not True])
            if cat(want, 'reg'):
                v.ensure(st, 'nothing is posted and no ring destroyed while the lock is held', not [x for x in g.ev(st, 'post', 'ringdtor', 'release') if x[1] or x[2]])
        v.cover_exists('new', [(st, True) for st, r in outs if g.rmap.ops(st)[-1][3]])
        v.cover_exists('exists, reused', [(st, NOT(is_null(r))) for st, r in outs if not g.rmap.ops(st)[-1][3]])
        v.cover_exists('exists, refused', [(st, is_null(r)) for st, r in outs if not g.rmap.ops(st)[-1][3]])
    return run

def task_add_ring2(want=None):
    def run(V):
        v = V('engine::add_ring(ring)')
        g = Reg(v)
        e = g.e
        ring = Ptr(e.rings, 0, v.sym('ring', 64))
        v.assume(NOT(is_null(ring)))
        outs = v.call(r'^hogl::engine::add_ring\(hogl::ringbuf\*\)$', [e.p, ring])
        name = Ptr(e.names, 0, bv(v.get(v.st, ring, RB, '_name'), 64))
        for st, r in outs:
            ins = [x for x in g.rmap.ops(st) if x[0] == 'insert']
            g.balanced(st)
            v.ensure(st, 'one registration attempt', len(ins) == 1)
            if len(ins) != 1:
                continue
            _, key, val, new, node, cur = ins[0]
            if cat(want, 'reg'):
                v.ensure(st, 'this ring, under its name', AND(ptr_eq(val, ring), cxx.str_eq(key, cxx.Str(('c', name)))))
                v.ensure(st, 'tells whether it was registered', EQ(r, new))
                h, l = g.ev(st, 'hold'), g.ev(st, 'release')
                v.ensure(st, 'the registry takes one reference if and only if it registered the ring', AND(len(h) == (1 if new else 0), *[ptr_eq(x[3], ring) for x in h]) if not l else False)
                if new:
                    v.ensure(st, 'before the lock is released', all(x[1] for x in h))
                    v.ensure(st, 'the reading side is told', EQ(e.getf(st, '_ring_index.dirty'), 1))
                v.ensure(st, 'nothing is posted while the lock is held', not [x for x in g.ev(st, 'post') if x[1] or x[2]])
            if cat(want, 'ts'):
                t = g.ev(st, 'timesource')
                if new:
                    un = [x for x in g.ev(st, 'unlock') if ptr_eq(x[3], g.rlock) is True]
                    t = [x for x in t if x[1]]
                    v.ensure(st, "a new ring gets the engine's time source under the lock under which it is registered", bool(t) and bool(un) and AND(ptr_eq(t[-1][3], ring), ptr_eq(t[-1][4], un[-1][4])))
                else:
                    v.ensure(st, 'no ring changes its time source', not t)
        v.cover_exists('new', [(st, EQ(r, True)) for st, r in outs])
        v.cover_exists('exists', [(st, EQ(r, False)) for st, r in outs])
    return run

def task_add_area(V):
    v = V('engine::add_area')
    g = Reg(v)
    e = g.e
    ex = v.ex
    nm = Ptr(e.names, 0, v.sym('name', 64))
    v.assume(NOT(is_null(nm)))
    sec = Ptr(ex.region('sections', 64, 'obj'), 0)
    heap0 = v.st.ghost.get('heap', frozenset())
    outs = v.call(r'^hogl::engine::add_area\(char const\*, char const\*\*\)$', [e.p, nm, sec])
    for st, r in outs:
        ins = [x for x in g.amap.ops(st) if x[0] == 'insert']
        g.balanced(st)
        v.ensure(st, 'one registration attempt', len(ins) == 1)
        if len(ins) != 1:
            continue
        _, key, val, new, node, cur = ins[0]
        made = g.ev(st, 'areactor')
        v.ensure(st, 'the area is made with the given name and sections', len(made) == 1 and AND(ptr_eq(made[0][4], nm), ptr_eq(made[0][5], sec), ptr_eq(made[0][3], val)))
        v.ensure(st, 'registered under the given name', cxx.str_eq(key, cxx.Str(('c', nm))))
        leak = st.ghost.get('heap', frozenset()) - heap0
        ap = g.ev(st, 'apply')
        v.ensure(st, 'nothing is posted while the lock is held', not [x for x in g.ev(st, 'post') if x[1] or x[2]])
        if new:
            v.ensure(st, 'a new name returns the new area', ptr_eq(r, val))
            v.ensure(st, 'which is alive', AND(val.reg.id not in st.dead, not g.ev(st, 'areadtor')))
            v.ensure(st, 'the current mask is applied to it', len(ap) >= 1 and AND(ptr_eq(ap[-1][3], val), ptr_eq(ap[-1][4], g.maskp)))
            v.ensure(st, 'under the lock that protects the mask', all(x[2] for x in ap))
        else:
            v.ensure(st, 'no section changes', AND(*[ptr_eq(x[3], val) for x in ap]))
            v.ensure(st, 'the unused area is destroyed once, nothing leaks', AND(len(g.ev(st, 'areadtor')) == 1 and ptr_eq(g.ev(st, 'areadtor')[0][3], val), val.reg.id in st.dead, not leak))
            sm = g.ev(st, 'same')
            dt = [k for k, x in enumerate(g.ev(st)) if x[0] == 'areadtor']
            cmpk = [k for k, x in enumerate(g.ev(st)) if x[0] == 'same']
            v.ensure(st, 'the sections of both are compared', len(sm) == 1 and OR(AND(ptr_eq(sm[0][3], val), ptr_eq(sm[0][4], cur)), AND(ptr_eq(sm[0][3], cur), ptr_eq(sm[0][4], val))))
            v.ensure(st, 'before one is destroyed', bool(dt) and bool(cmpk) and cmpk[0] < dt[0])
            if sm:
                v.ensure(st, 'the registered area is returned exactly if the sections are identical', ITE(boolv(sm[0][5]), ptr_eq(r, cur), is_null(r)))
    v.cover_exists('new', [(st, True) for st, r in outs if g.amap.ops(st)[-1][3]])
    v.cover_exists('same', [(st, NOT(is_null(r))) for st, r in outs if not g.amap.ops(st)[-1][3]])
    v.cover_exists('refused', [(st, is_null(r)) for st, r in outs if not g.amap.ops(st)[-1][3]])

def task_find(V):
    for what in ('area', 'ring'):
        v = V('engine::find_' + what)
        g = Reg(v)
        e = g.e
        nm = Ptr(e.names, 0, v.sym('name', 64))
        v.assume(NOT(is_null(nm)))
        m = g.amap if what == 'area' else g.rmap
        outs = v.call(r'^hogl::engine::find_%s\(char const\*\) const$' % what, [e.p, nm])
        for st, r in outs:
            g.balanced(st)
            f = [x for x in m.ops(st) if x[0] == 'find']
            v.ensure(st, 'the name is looked up', len(f) >= 1 and cxx.str_eq(f[-1][1], cxx.Str(('c', nm))))
            if not f:
                continue
            n = f[-1][2]
            h, l = g.ev(st, 'hold'), g.ev(st, 'release')
            if n is None:
                v.ensure(st, 'an unknown name gives nothing', AND(is_null(r), not h))
            else:
                v.ensure(st, 'a known name gives the registered object', ptr_eq(r, m.val(st, n)))
                if what == 'ring':
                    v.ensure(st, 'held for the caller before the lock is released', len(h) == 1 and AND(h[0][1], ptr_eq(h[0][3], r)))
            v.ensure(st, 'nothing is released', not l)
        v.cover_exists('found', [(st, NOT(is_null(r))) for st, r in outs])
        v.cover_exists('not found', [(st, is_null(r)) for st, r in outs])

def itercands(v, g, m, cnt):
    """the iterator stands at node cnt+1"""
    def cands(ex, st, lv):
        out = []
        its = []
        for key, p in lv.cur.items():
            if isinstance(p, Ptr) and p.reg is m.nodes:
                its.append((key, bv(p.idx, 64)))
        for rid, mm in st.mem.items():
            if mm.reg.kind == 'obj' and mm.reg.size == 8:
                try:
                    p = mm.read(None, 0, 8, True)
                except Exception:
                    continue
                if isinstance(p, Ptr) and p.reg is m.nodes:
                    its.append((mm.reg.name, bv(p.idx, 64)))
        for k, i in its:
            out.append(('%s: every node of %s before it was visited once' % (k, m.name), EQ(i, simp(bv(st.ghost[cnt], 64) + 1))))
        out.append(('no more visits than nodes of ' + m.name, ULE(st.ghost[cnt], m.N)))
        return out
    return cands

def task_list(V):
    for what in ('areas', 'rings'):
        v = V('engine::list_' + what)
        g = Reg(v)
        e = g.e
        m = g.amap if what == 'areas' else g.rmap
        cls = AREA if what == 'areas' else RB
        v.st.ghost['np'] = z3.BitVecVal(0, 64)
        L = v.buf('list', 24)
        def push(ex, st, a, c):
            s = cxx.getstr(ex, st, a[1])
            obj = m.val(st, simp(bv(st.ghost['np'], 64) + 1))
            ex.oblige(st, 'the name of the next registered object is listed', AND(ptr_eq(a[0], L), ULT(st.ghost['np'], m.N), cxx.str_eq(s, cxx.Str(('c', Ptr(e.names, 0, bv(v.get(st, obj, cls, '_name'), 64)))))), 'post')
            st.ghost['np'] = simp(bv(st.ghost['np'], 64) + 1)
            return None
        v.model(r'^std::__cxx11::list<.*>::(push_back|emplace_back)', push)
        v.loop(r'', LoopSpec(cands=itercands(v, g, m, 'np'), ghost=('np',)))
        outs = v.call(r'^hogl::engine::list_%s\(' % what, [e.p, L])
        for st, _ in outs:
            g.balanced(st)
            v.ensure(st, 'every registered object is listed once', EQ(st.ghost['np'], m.N))
        v.cover_exists('three', [(st, m.N == 3) for st, _ in outs])

def task_apply_mask(V):
    v = V('engine::apply_mask')
    g = Reg(v)
    e = g.e
    m = g.amap
    v.st.ghost['np'] = z3.BitVecVal(0, 64)
    mk = v.obj('hogl::mask', 'mask')
    def on_apply(st, ma, ar):
        v.ex.oblige(st, 'the new mask is applied to the next registered area', AND(OR(ptr_eq(ma, mk), AND(ptr_eq(ma, g.maskp), st.ghost['set'])), ULT(st.ghost['np'], m.N), ptr_eq(ar, m.val(st, simp(bv(st.ghost['np'], 64) + 1)))), 'post')
        v.ex.oblige(st, 'under the area lock', m.locked(st), 'lock')
        st.ghost['np'] = simp(bv(st.ghost['np'], 64) + 1)
    g.on_apply = on_apply
    v.st.ghost['set'] = False
    v.st.ghost['done'] = False
    def on_unlock(ex, st, p):
        if ptr_eq(p, g.alock) is True:
            st.ghost['done'] = AND(st.ghost['set'], EQ(st.ghost['np'], m.N))
            st.ghost['set'] = False
    v.ex.on_unlock.append(on_unlock)
    def assign(ex, st, a, c):
        ex.oblige(st, 'the mask of the engine is changed under the area lock', m.locked(st), 'lock')
        ex.oblige(st, 'the given mask becomes the current mask', AND(ptr_eq(a[0], g.maskp), ptr_eq(a[1], mk)), 'post')
        st.ghost['set'] = True
        return a[0]
    v.ex.models.insert(0, (__import__('re').compile(r'^hogl::mask::operator=\(hogl::mask const&\)$'), assign))
    v.loop(r'', LoopSpec(cands=itercands(v, g, m, 'np'), ghost=('np',)))
    c0 = e.getf(v.st, '_stats.mask_changed')
    outs = v.call(r'^hogl::engine::apply_mask\(', [e.p, mk])
    for st, _ in outs:
        g.balanced(st)
        v.ensure(st, 'the mask is applied to every registered area', EQ(st.ghost['np'], m.N))
        v.ensure(st, 'and is the current mask for areas added later', st.ghost['done'])
        v.ensure(st, 'in one critical section', st.ghost['done'])
        v.ensure(st, 'counted', EQ(e.getf(st, '_stats.mask_changed'), simp(bv(c0, 64) + 1)))
    v.cover_exists('three', [(st, m.N == 3) for st, _ in outs])

def task_process_rings(want=None):
    def run(V):
        v = V('engine::process_rings')
        g = Reg(v)
        e = g.e
        outp = v.obj('hogl::output', 'output')
        e.setf(v.st, '_output', outp)
        s0 = v.st.clone()
        outs = v.call(r'^hogl::engine::process_rings\(\)$', [e.p])
        for st, _ in outs:
            g.balanced(st)
            kinds = [x[0] for x in g.ev(st)]
            if cat(want, 'reg'):
                v.ensure(st, 'the index is rebuilt under the ring lock only', all(x[1] for x in g.ev(st, 'rebuild')))
                v.ensure(st, 'and never while rings are processed', 'rebuild' not in kinds or 'process' in kinds and max(k for k, x in enumerate(kinds) if x == 'rebuild') < kinds.index('process'))
            if cat(want, 'order'):
                v.ensure(st, 'the rings are processed once', kinds.count('process') == 1)
                v.ensure(st, 'and the output is flushed afterwards', 'outflush' in kinds and 'process' in kinds and max(k for k, x in enumerate(kinds) if x == 'outflush') > kinds.index('process'))
        v.cover_exists('rebuild', [(st, True) for st, _ in outs if g.ev(st, 'rebuild')])
        v.cover_exists('no rebuild', [(st, True) for st, _ in outs if not g.ev(st, 'rebuild')])
    return run

def task_switch(V):
    v = V('engine::switch_timesource')
    g = Reg(v)
    e = g.e
    m = g.rmap
    ring = Ptr(e.rings, 0, v.sym('ring', 64))
    v.assume(NOT(is_null(ring)))
    r = Ptr(e.recs, 0, v.sym('rec', 64))
    v.assume(NOT(is_null(r)))
    new = bv(v.get(v.st, r, REC, 'argval', False) if False else v.ex.peek(v.st, r.plus(v.off(REC, 'argval')[0] + 8), 8, False), 64)
    v.assume(new != 0)
    e.recs.famtype[(v.off(REC, 'argval')[0] + 8, 8)] = lambda x: Ptr(g.ts, 0, x)
    v.st.ghost['np'] = z3.BitVecVal(0, 64)
    T = Ptr(g.ts, 0, new)
    def on_settime(st, q, t):
        v.ex.oblige(st, 'the next registered ring gets the new time source', AND(ULT(st.ghost['np'], m.N), ptr_eq(q, m.val(st, simp(bv(st.ghost['np'], 64) + 1))), ptr_eq(t, T)), 'post')
        v.ex.oblige(st, 'under the ring lock', m.locked(st), 'lock')
        st.ghost['np'] = simp(bv(st.ghost['np'], 64) + 1)
    g.on_settime = on_settime
    v.loop(r'', LoopSpec(cands=itercands(v, g, m, 'np'), ghost=('np',)))
    outs = v.call(r'^hogl::engine::switch_timesource\(', [e.p, ring, r])
    for st, _ in outs:
        g.balanced(st)
        v.ensure(st, 'every registered ring uses the new time source', EQ(st.ghost['np'], m.N))
        un = [x for x in g.ev(st, 'unlock') if ptr_eq(x[3], g.rlock) is True]
        v.ensure(st, 'rings registered later get it too', len(un) == 1 and ptr_eq(un[0][4], T))
        v.ensure(st, 'the record is not touched', EQ(v.ex.peek(st, r.plus(v.off(REC, 'argval')[0]), 8, False), v.ex.peek(v.st, r.plus(v.off(REC, 'argval')[0]), 8, False)))
    v.cover_exists('three', [(st, m.N == 3) for st, _ in outs])

def task_kill(V):
    v = V('engine::kill_orphan')
    g = Reg(v)
    e = g.e
    v.assume(z3.UGT(e.n, 0))
    i = v.sym('i', 32)
    v.assume(z3.ULT(i, e.n))
    ring = e.ix(v.st, i, 'ring')
    v.assume(NOT(is_null(ring)))
    K = v.sym('K', 64)
    name = Ptr(e.names, 0, bv(v.get(v.st, ring, RB, '_name'), 64))
    s0 = v.st.clone()
    outs = v.call(r'^hogl::engine::kill_orphan\(', [e.p, i, ring])
    for st, _ in outs:
        g.balanced(st)
        found = {str(x[2]): x[1] for x in g.rmap.ops(st) if x[0] == 'find' and x[2] is not None}
        er = [x for x in g.rmap.ops(st) if x[0] == 'erase'] + [('erase', found.get(str(x[1]), cxx.Str(('c', NULL)))) for x in g.rmap.ops(st) if x[0] == 'erase_it']
        ev = g.ev(st)
        rel = [k for k, x in enumerate(ev) if x[0] == 'release']
        v.ensure(st, 'the registration ends exactly when the registry gives up its reference', len(er) == len(rel) and len(er) <= 1)
        other = IMP(NE(K, Z64(i)), AND(*[val_eq(e.ix(st, K, f), e.ix(s0, K, f)) for f in ('ring', 'lastrec', 'seqnum')]))
        v.ensure(st, 'the other rings stay', other)
        if er:
            # what was observed about the ring while nobody could get it
            lk = [k for k, x in enumerate(ev) if x[0] == 'lock']
            orp = [k for k, x in enumerate(ev) if x[0] == 'orphan' and x[1] and lk and k > lk[-1]] + [k for k, x in enumerate(ev) if x[0] == 'refcnt' and x[1] and lk and k > lk[-1]]
            emp = [k for k, x in enumerate(ev) if x[0] == 'empty' and x[1] and orp and k > orp[0]]
            oc = OR(*[AND(ptr_eq(ev[k][3], ring), ev[k][4] if ev[k][0] == 'orphan' else EQ(ev[k][4], 1)) for k in orp]) if orp else False
            ec = OR(*[AND(ptr_eq(ev[k][3], ring), ev[k][4]) for k in emp]) if emp else False
            v.ensure(st, 'under the lock under which rings are handed out the ring has no other holder', oc)
            v.ensure(st, 'and is empty after that was seen', ec)
            v.ensure(st, 'this ring is removed from the registry', cxx.str_eq(er[0][1], cxx.Str(('c', name))))
            v.ensure(st, 'its index entry no longer refers to it', is_null(e.ix(st, i, 'ring')))
            v.ensure(st, 'the index is rebuilt later', EQ(e.getf(st, '_ring_index.dirty'), 1))
            v.ensure(st, "the registry's reference, and only that, is released", len(rel) == 1 and ptr_eq(ev[rel[0]][3], ring))
            v.ensure(st, 'after the lock was released', not ev[rel[0]][1])
        else:
            v.ensure(st, 'otherwise nothing changes', AND(val_eq(e.ix(st, i, 'ring'), ring), not g.ev(st, 'hold')))
    v.cover_exists('retired', [(st, True) for st, _ in outs if g.ev(st, 'release')])
    v.cover_exists('kept', [(st, True) for st, _ in outs if not g.ev(st, 'release')])
