"""R14: reference counting of rings, the engine's retire step, thread-local bindings.

The count of a ring is the number of references held by its users and its registry.  `mine` is what the
thread under consideration holds; the rely of a thread that holds n references is that the others only ever
take the count to values >= n.  A thread that gives up a reference without being the last one must not touch the
ring again; the one that takes the count to zero is alone."""
from registry import *
from ringlib import RB
import importlib
_r2 = importlib.import_module('R02')

UNITS = {'ring': '$VERIF/units/ring.cc', 'ringbuf': '$REPO/src/ringbuf.cc', 'engine': '$REPO/src/engine.cc', 'tls': '$REPO/src/tls.cc', 'act': '$REPO/src/default-engine.cc'}
TRUSTED = ['__sync_add_and_fetch is atomic (taken from the atomicrmw in the IR)', 'std::map and std::string contracts', 'mutex contracts', 'pthread_join returns after the thread ended', 'operator new/delete contracts']
ASSUMPTIONS = ['callers release only references they hold', 'fewer than 2^31 references', 'nested thread-local bindings are destroyed in reverse order (C++ scopes)', 'the caller of tls(ringbuf *) hands its reference over']

class Counted:
    """a ring whose count other threads may change at any time; mine = references of this thread"""
    def __init__(self, v, mine):
        self.v = v
        self.p = v.obj(RB, 'ring')
        self.p.reg.heap = True
        self.flags = v.sym('flags', 32)
        v.set(v.st, self.p, RB, '_flags', self.flags)
        self.o, self.n = v.off(RB, '_refcnt')
        v.st.ghost[('cnt',)] = ()
        v.st.ghost['mine'] = z3.BitVecVal(mine, 32)
        v.st.ghost['gone'] = False
        ex = v.ex
        def cell(p):
            return p.reg is self.p.reg and isc(p.off) and p.off == self.o
        def alive(st, p, i):
            if p.reg is self.p.reg:
                ex.oblige(st, 'the ring is not touched after the last own reference was given up', NOT(st.ghost['gone']), 'frame')
        def on_load(ex, st, p, n, i):
            alive(st, p, i)
            if cell(p):
                ex.oblige(st, 'the count is read as a shared (volatile/atomic) location', bool(i.op == 'atomicrmw' or i.op == 'cmpxchg' or i.volatile or 'atomic' in i.flags), 'shared')
                if st.ghost.get('sole') is True:
                    return
                c = ex.fresh('count', 32)
                st.assume(z3.BitVecVal(0, 32) <= c)
                st.assume(c >= bv(st.ghost['mine'], 32))
                st.assume(c < (1 << 30))
                v.set(st, self.p, RB, '_refcnt', c)
        def on_store(ex, st, p, n, val, i):
            alive(st, p, i)
            if cell(p):
                ex.oblige(st, 'the count is changed atomically only', i.op in ('atomicrmw', 'cmpxchg'), 'shared')
                old = v.get(st, self.p, RB, '_refcnt')
                st.ghost[('cnt',)] = st.ghost[('cnt',)] + ((old, val),)
                d = simp(bv(val, 32) - bv(old, 32))
                st.ghost['mine'] = simp(bv(st.ghost['mine'], 32) + d)
                # nobody left: no other thread may touch the ring;  others left: they may free it at any time
                sole = EQ(val, 0)
                st.ghost['gone'] = AND(EQ(st.ghost['mine'], 0), NOT(sole), NE(d, 0))
                st.ghost['last'] = AND(sole, NE(d, 0))
        def on_free(ex, st, p):
            if p.reg is self.p.reg:
                ex.oblige(st, 'a ring is freed only by whoever dropped the last reference', st.ghost.get('last', False), 'post')
                ex.oblige(st, 'an immortal ring is never freed', (self.flags & IMMORTAL) == 0, 'post')
        ex.on_load.append(on_load)
        ex.on_store.append(on_store)
        ex.on_free = getattr(ex, 'on_free', []) + [on_free]
        v.st.ghost['dtors'] = 0
        def dtor(ex, st, a, c):
            ex.oblige(st, 'a ring is destroyed only by whoever dropped the last reference', AND(ptr_eq(a[0], self.p), st.ghost.get('last', False)), 'post')
            st.ghost['dtors'] = st.ghost['dtors'] + 1
            return None
        self.dtor = dtor
    def delta(self, st):
        d = z3.BitVecVal(0, 32)
        for o, n in st.ghost[('cnt',)]:
            d = d + bv(n, 32) - bv(o, 32)
        return simp(d)

def IFF(a, b):
    return AND(IMP(a, b), IMP(b, a))

def changes(st):
    return [(o, n) for o, n in st.ghost[('cnt',)] if not (isc(simp(bv(n, 32) - bv(o, 32))) and int(simp(bv(n, 32) - bv(o, 32))) == 0)]

def task_count(V):
    # hold
    v = V('ringbuf::hold')
    r = Counted(v, 1)
    s0 = v.st.clone()
    for st, p in v.call(r'^hogl::ringbuf::hold\(\)$', [r.p]):
        v.ensure(st, 'one reference more, in one atomic step', AND(EQ(r.delta(st), 1), len(changes(st)) == 1))
        v.ensure(st, 'returns the ring', ptr_eq(p, r.p))
        v.unchanged(st, s0, r.p, RB, except_=['_refcnt'])
        v.frame_regions(st, s0, [r.p.reg])
        v.cover('returns', st)
    # release
    v = V('ringbuf::release')
    r = Counted(v, 1)
    v.model(r'^hogl::ringbuf::~ringbuf\(\)$', r.dtor)
    s0 = v.st.clone()
    outs = v.call(r'^hogl::ringbuf::release\(\) const$', [r.p])
    for st, _ in outs:
        v.ensure(st, 'one reference less', EQ(r.delta(st), -1 & 0xffffffff))
        ch = changes(st)
        v.ensure(st, 'in one atomic step', len(ch) == 1)
        last = EQ(ch[-1][1], 0) if ch else False
        mortal = (r.flags & IMMORTAL) == 0
        freed = r.p.reg.id in st.dead
        v.ensure(st, 'destroyed and freed exactly when this was the last reference and the ring is not immortal', AND(IFF(freed, AND(last, mortal)), st.ghost['dtors'] == (1 if freed else 0)))
        if not freed:
            v.unchanged(st, s0, r.p, RB, except_=['_refcnt'])
        v.frame_regions(st, s0, [r.p.reg])
    v.ensure(v.st, 'never aborts when the reference was held', not [1 for k, s in v.ex.ended if k == 'abort' and v.P.prover.model(s.pc, z3.BoolVal(True)) is not None])
    v.cover_exists('last of a mortal ring', [(st, True) for st, _ in outs if r.p.reg.id in st.dead])
    v.cover_exists('last of an immortal ring', [(st, AND(EQ(v.get(st, r.p, RB, '_refcnt'), 0), (r.flags & IMMORTAL) != 0)) for st, _ in outs if r.p.reg.id not in st.dead])
    v.cover_exists('not last', [(st, NE(v.get(st, r.p, RB, '_refcnt'), 0)) for st, _ in outs if r.p.reg.id not in st.dead])
    # looking at the count
    for what in ('refcnt', 'orphan'):
        v = V('ringbuf::' + what)
        r = Counted(v, 1)
        s0 = v.st.clone()
        outs = v.call(r'^hogl::ringbuf::%s\(\) const$' % what, [r.p])
        for st, x in outs:
            cur = v.get(st, r.p, RB, '_refcnt')
            v.ensure(st, 'no reference is taken or dropped', EQ(r.delta(st), 0))
            v.ensure(st, 'reports a count the ring really had', EQ(x, cur) if what == 'refcnt' else IFF(boolx(x) if not isinstance(x, bool) else x, EQ(cur, 1)))
            v.unchanged(st, s0, r.p, RB, except_=['_refcnt'])
            v.frame_regions(st, s0, [r.p.reg])
        v.cover_exists('one', [(st, EQ(v.get(st, r.p, RB, '_refcnt'), 1)) for st, x in outs])
        v.cover_exists('more', [(st, NE(v.get(st, r.p, RB, '_refcnt'), 1)) for st, x in outs])

def task_engine_dtor(V):
    v = V('engine::~engine')
    g = Reg(v)
    e = g.e
    ent = v.buf('index', v.sym('indexsize', 64)); ent.reg.heap = True
    e.setf(v.st, '_ring_index.entries', ent)
    v.st.ghost['nr'] = v.st.ghost['na'] = v.st.ghost['nd'] = z3.BitVecVal(0, 64)
    v.st.ghost['joined'] = False
    def guard(st, what):
        v.ex.oblige(st, 'the registries are taken down after the engine thread ended', st.ghost['joined'], 'lock')
    g.rmap.guard = g.amap.guard = guard
    def join(ex, st, a, c):
        ex.oblige(st, 'the thread is told to stop first', NE(e.getf(st, '_killed'), 0), 'post')
        th = e.getf(st, '_thread')
        ex.oblige(st, 'the engine thread is joined', EQ(a[0], th), 'post')
        st.ghost['joined'] = True
        return 0
    v.ex.models.insert(0, (__import__('re').compile(r'^pthread_join$'), join))
    def release(ex, st, a, c):
        ex.oblige(st, 'the reference of the registry to the next ring is dropped', AND(st.ghost['joined'], ULT(st.ghost['nr'], g.rmap.N), ptr_eq(a[0], g.rmap.val(st, simp(bv(st.ghost['nr'], 64) + 1)))), 'post')
        st.ghost['nr'] = simp(bv(st.ghost['nr'], 64) + 1)
        return None
    v.ex.models.insert(0, (__import__('re').compile(r'^hogl::ringbuf::release\(\) const$'), release))
    def areadtor(ex, st, a, c):
        ex.oblige(st, 'the next registered area is destroyed', AND(st.ghost['joined'], ULT(st.ghost['na'], g.amap.N), ptr_eq(a[0], g.amap.val(st, simp(bv(st.ghost['na'], 64) + 1)))), 'post')
        st.ghost['na'] = simp(bv(st.ghost['na'], 64) + 1)
        return None
    v.ex.models.insert(0, (__import__('re').compile(r'^hogl::area::~area\(\)$'), areadtor))
    def dele(ex, st, a, c):
        if a[0].reg is g.areas:
            ex.oblige(st, 'a destroyed area is freed', AND(EQ(simp(bv(st.ghost['nd'], 64) + 1), st.ghost['na']), ptr_eq(a[0], g.amap.val(st, st.ghost['na']))), 'post')
            st.ghost['nd'] = simp(bv(st.ghost['nd'], 64) + 1)
            return None
        return lib._free(ex, st, a, c)
    v.ex.models.insert(0, (__import__('re').compile(r'^operator delete\(void\*(, unsigned long)?\)$'), dele))
    for rx in (r'^hogl::tsobuf::~tsobuf\(\)$', r'^hogl::mask::~mask\(\)$', r'^std::map<.*>::~map\(\)$', r'^hogl::engine::options::~options\(\)$'):
        v.model(rx, lambda ex, st, a, c: None)
    c1, c2 = itercands(v, g, g.rmap, 'nr'), itercands(v, g, g.amap, 'na')
    def cands(ex, st, lv):
        out = c1(ex, st, lv) + c2(ex, st, lv)
        out += [('areas freed', EQ(st.ghost['nd'], st.ghost['na'])), ('rings done', EQ(st.ghost['nr'], g.rmap.N)), ('areas done', EQ(st.ghost['na'], g.amap.N)), ('rings not started', EQ(st.ghost['nr'], 0)), ('areas not started', EQ(st.ghost['na'], 0))]
        return out
    v.loop(r'', LoopSpec(cands=cands, ghost=('nr', 'na', 'nd')))
    outs = v.call(r'^hogl::engine::~engine\(\)$', [e.p])
    for st, _ in outs:
        v.ensure(st, 'every registered ring loses exactly the reference of the registry', EQ(st.ghost['nr'], g.rmap.N))
        v.ensure(st, 'every area is destroyed once', AND(EQ(st.ghost['na'], g.amap.N), EQ(st.ghost['nd'], g.amap.N)))
        v.ensure(st, 'the index is freed', ent.reg.id in st.dead)
        v.ensure(st, 'the thread was joined', st.ghost['joined'])
    v.cover_exists('three rings', [(st, g.rmap.N == 3) for st, _ in outs])

# ---- thread-local bindings ----------------------------------------------------------------------
TLS = 'hogl::tls'
def glob(v, name):
    for m in v.mods:
        for n in (name, '@' + name):
            if n in m.globals:
                return v.ex.gptr(m, n)
    raise Unsupported('no global ' + name)

def count_eq(evs, r):
    n = z3.BitVecVal(0, 32)
    for x in evs:
        n = n + ITE(ptr_eq(x[1], r), z3.BitVecVal(1, 32), z3.BitVecVal(0, 32), 32)
    return simp(n)

class Tls:
    """rings are opaque; every operation on one is recorded with the thread's current ring at that time"""
    def __init__(self, v, own=()):
        self.v = v
        self.own = own
        ex = v.ex
        self.rings = fam(ex, 'ring', v.size(RB))
        self.p = v.obj(TLS, 'tls')
        self.eng = v.obj('hogl::engine', 'engine')
        v.set(v.st, self.p, TLS, '_engine', self.eng)
        self.cell = glob(v, '_ZN4hogl3tls5_ringE')
        self.old = Ptr(self.rings, 0, v.sym('current', 64))
        v.assume(NOT(is_null(self.old)))
        ex.poke(v.st, self.cell, 8, self.old)
        v.st.ghost[('ev',)] = ()
        def log(kind):
            def f(ex, st, a, c):
                if self.own and kind not in ('post', 'hold'):
                    mine = count_eq([(0, o) for o in self.own], a[0])
                    ex.oblige(st, 'a ring is used and released only while an own reference to it is left', z3.ULT(bv(count_eq(self.ev(st, 'release'), a[0]), 32), bv(mine, 32)), 'post')
                st.ghost[('ev',)] = st.ghost[('ev',)] + ((kind, a[0] if a else None, self.cur(st)),)
                if kind == 'hold':
                    return a[0]
                if kind == 'empty':
                    return ex.fresh('empty', 'bool')
                if kind == 'name':
                    return NULL
                return None
            return f
        for rx, k in ((r'^hogl::ringbuf::hold\(\)$', 'hold'), (r'^hogl::ringbuf::release\(\) const$', 'release'), (r'^hogl::ringbuf::empty\(\) const$', 'empty'), (r'^hogl::ringbuf::name\(\) const$', 'name'), (r'^hogl::post(_unlocked)?\(', 'post')):
            v.model(rx, log(k))
        v.model(r'^hogl::arg::arg\(', lambda ex, st, a, c: None)
        v.model(r'^hogl::engine::internal_area\(\) const$', lambda ex, st, a, c: NULL)
    def ev(self, st, *k):
        return [x for x in st.ghost[('ev',)] if not k or x[0] in k]
    def cur(self, st):
        return self.v.ex.peek(st, self.cell, 8, True)
    def f(self, st, n):
        return self.v.get(st, self.p, TLS, n, True)

def task_tls(V):
    for what, rx in (('name', r'^hogl::tls::tls\(char const\*, hogl::ringbuf::options&, hogl::engine\*\)$'), ('ring', r'^hogl::tls::tls\(hogl::ringbuf\*, hogl::engine\*\)$')):
        v = V('tls::tls(%s)' % what)
        t = Tls(v)
        r = Ptr(t.rings, 0, v.sym('ring', 64))
        v.assume(NOT(is_null(r)))
        if what == 'name':
            opts = v.obj(opt_cls, 'options')
            nm = v.buf('name', 16)
            def add(ex, st, a, c):
                ex.oblige(st, 'the ring is asked for by the given name and options', AND(ptr_eq(a[0], t.eng), ptr_eq(a[1], nm), ptr_eq(a[2], opts)), 'post')
                st.ghost[('ev',)] = st.ghost[('ev',)] + (('add', None, None),)
                s2 = st.clone()
                s2.ghost[('none',)] = True
                return [(st, r), (s2, NULL)]
            v.model(r'^hogl::engine::add_ring\(char const\*, ', add)
            args = [t.p, nm, opts, t.eng]
        else:
            args = [t.p, r, t.eng]
        outs = v.call(rx, args)
        for st, _ in outs:
            if what == 'name':
                v.ensure(st, 'one ring is asked for', len(t.ev(st, 'add')) == 1)
            hold, rel = t.ev(st, 'hold'), t.ev(st, 'release')
            if st.ghost.get(('none',)):
                v.ensure(st, 'without a ring the binding of the thread stays', ptr_eq(t.cur(st), t.old))
                v.ensure(st, 'and the object is marked invalid', is_null(t.f(st, '_current_ring')))
                v.ensure(st, 'and no reference is taken', not hold and not rel)
            else:
                v.ensure(st, 'the thread uses the ring', AND(ptr_eq(t.cur(st), r), ptr_eq(t.f(st, '_current_ring'), r)))
                v.ensure(st, 'the previous binding is remembered and held, once', AND(ptr_eq(t.f(st, '_previous_ring'), t.old), len(hold) == 1 and ptr_eq(hold[0][1], t.old), not rel))
                v.ensure(st, 'while it is still the binding of the thread', len(hold) == 1 and ptr_eq(hold[0][2], t.old))
            v.ensure(st, 'the engine is remembered', ptr_eq(t.f(st, '_engine'), t.eng))
        v.cover_exists('bound', [(st, True) for st, _ in outs if not st.ghost.get(('none',))])
        if what == 'name':
            v.cover_exists('failed', [(st, True) for st, _ in outs if st.ghost.get(('none',))])
    v = V('tls::~tls')
    t = Tls(v)
    prev, cur = Ptr(t.rings, 0, v.sym('previous', 64)), t.old
    v.assume(NOT(is_null(prev)))
    t.own = (prev, cur)
    v.set(v.st, t.p, TLS, '_previous_ring', prev)
    v.set(v.st, t.p, TLS, '_current_ring', cur)
    outs = v.call(r'^hogl::tls::~tls\(\)$', [t.p])
    for st, _ in outs:
        rel = t.ev(st, 'release')
        v.ensure(st, 'the previous binding is restored', ptr_eq(t.cur(st), prev))
        v.ensure(st, 'exactly the two references of the object are dropped', AND(len(rel) == 2, EQ(count_eq(rel, cur), ITE(ptr_eq(cur, prev), z3.BitVecVal(2, 32), z3.BitVecVal(1, 32), 32)), z3.UGE(bv(count_eq(rel, prev), 32), 1)))
        v.ensure(st, 'nothing is taken', not t.ev(st, 'hold'))
        v.ensure(st, 'the thread never uses a ring whose reference was dropped', AND(*[IMP(ptr_eq(x[1], cur), OR(ptr_eq(x[2], prev), ptr_eq(cur, prev))) for x in rel]))
        v.cover('returns', st)
    v = V('tls::~tls of an invalid object')
    t = Tls(v)
    v.set(v.st, t.p, TLS, '_previous_ring', NULL)
    v.set(v.st, t.p, TLS, '_current_ring', NULL)
    for st, _ in v.call(r'^hogl::tls::~tls\(\)$', [t.p]):
        v.ensure(st, 'the binding of the thread stays', ptr_eq(t.cur(st), t.old))
        v.ensure(st, 'no reference is dropped or taken', not t.ev(st, 'release', 'hold'))
        v.cover('returns', st)

# ---- default engine and default ring ---------------------------------------------------------------
def task_activate(V):
    def setup(name):
        v = V(name)
        ring = glob(v, '_ZN4hogl12default_ringE')
        cell = glob(v, '_ZN4hogl14default_engineE')
        fl = v.sym('flags', 32)
        v.set(v.st, ring, RB, '_flags', fl)
        engs = fam(v.ex, 'engine', v.size('hogl::engine'))
        old = Ptr(engs, 0, v.sym('default_engine', 64))
        v.ex.poke(v.st, cell, 8, old)
        v.st.ghost[('ev',)] = ()
        def log(kind, ret=lambda a: None):
            def f(ex, st, a, c):
                st.ghost[('ev',)] = st.ghost[('ev',)] + ((kind,) + tuple(a),)
                return ret(a)
            return f
        for rx, k, ret in ((r'^hogl::ringbuf::hold\(\)$', 'hold', lambda a: a[0]), (r'^hogl::ringbuf::release\(\) const$', 'release', lambda a: None), (r'^hogl::engine::engine\(', 'ctor', lambda a: None), (r'^hogl::engine::~engine\(\)$', 'dtor', lambda a: None),
                           (r'^hogl::engine::add_ring\(hogl::ringbuf\*\)$', 'add', lambda a: True), (r'^atexit$', 'atexit', lambda a: 0)):
            v.model(rx, log(k, ret))
        def dele(ex, st, a, c):
            if a[0].reg is engs:
                st.ghost[('ev',)] = st.ghost[('ev',)] + (('free', a[0]),)
                return None
            return lib._free(ex, st, a, c)
        v.ex.models.insert(0, (__import__('re').compile(r'^operator delete\(void\*(, unsigned long)?\)$'), dele))
        v.model(r'^std::(logic_error|runtime_error)::', lambda ex, st, a, c: None)
        thrown = []
        v.ex.on_throw = getattr(v.ex, 'on_throw', []) + [lambda ex, st, *a: thrown.append(st.clone())]
        ev = lambda st, *k: [x for x in st.ghost[('ev',)] if not k or x[0] in k]
        return v, ring, cell, fl, engs, old, ev, thrown
    v, ring, cell, fl, engs, old, ev, thrown = setup('activate')
    outp = v.obj('hogl::output', 'output')
    opts = v.obj('hogl::engine::options', 'options')
    good = AND(is_null(old), (fl & SHARED) != 0, (fl & IMMORTAL) != 0)
    outs = v.call(r'^hogl::activate\(', [outp, opts])
    for st, _ in outs:
        e = v.ex.peek(st, cell, 8, True)
        v.ensure(st, 'accepted only without an active engine and with a shared, immortal default ring', good)
        c, h, a = ev(st, 'ctor'), ev(st, 'hold'), ev(st, 'add')
        v.ensure(st, 'one engine with the given output and options becomes the default engine', len(c) == 1 and AND(ptr_eq(c[0][1], e), ptr_eq(c[0][2], outp), ptr_eq(c[0][3], opts), not ev(st, 'dtor', 'free')))
        v.ensure(st, 'the default ring is held once and registered once with it', AND(len(h) == 1, len(a) == 1, not ev(st, 'release')) and AND(ptr_eq(h[0][1], ring), ptr_eq(a[0][1], e), ptr_eq(a[0][2], ring)))
        v.ensure(st, 'and held before it is registered', [x[0] for x in ev(st, 'hold', 'add')] == ['hold', 'add'])
    for st in thrown:
        v.ensure(st, 'refused only with an active engine or an unfit default ring', NOT(good))
        v.ensure(st, 'refused without any effect', AND(not ev(st), ptr_eq(v.ex.peek(st, cell, 8, True), old)))
    v.cover_exists('accepted', [(st, True) for st, _ in outs])
    v.cover_exists('refused', [(st, True) for st in thrown])
    v, ring, cell, fl, engs, old, ev, thrown = setup('deactivate')
    outs = v.call(r'^hogl::deactivate\(\)$', [])
    for st, _ in outs:
        r, d, f = ev(st, 'release'), ev(st, 'dtor'), ev(st, 'free')
        none = is_null(old)
        v.ensure(st, 'no default engine is left', is_null(v.ex.peek(st, cell, 8, True)))
        v.ensure(st, 'without a default engine nothing happens', IMP(none, not ev(st)))
        v.ensure(st, "otherwise the default ring loses the application's reference, once, and the engine is destroyed and freed once",
                 OR(none, AND(len(r) == 1, len(d) == 1, len(f) == 1, len(r) == 1 and ptr_eq(r[0][1], ring), len(d) == 1 and ptr_eq(d[0][1], old), len(f) == 1 and ptr_eq(f[0][1], old))))
    v.cover_exists('active', [(st, NOT(is_null(old))) for st, _ in outs])

TASKS = [('count', task_count), ('dtor', _r2.dtor), ('kill', task_kill), ('engine_dtor', task_engine_dtor), ('tls', task_tls), ('activate', task_activate), ('add_ring', task_add_ring({'reg'})), ('add_ring2', task_add_ring2({'reg'})), ('find', task_find),
         ('process_tso', task_process(True, {'orphan'})), ('process_notso', task_process(False, {'orphan'}))]
REPLAY = {'src': 'R14.cc', 'timeout': 200, 'libs': ['-Wl,--wrap=pthread_create,--wrap=_Znwm,--wrap=pthread_join,--wrap=pthread_mutex_lock,--wrap=pthread_mutex_unlock,--wrap=pthread_mutex_trylock']}
