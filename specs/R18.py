from hv.sym import *
from hv.spec import *
from hv import lib, cxx, ir
import re, z3
UNITS = {'sched': '$REPO/src/schedparam.cc'}
TRUSTED = ['strtoul/strtoull: value and end of the longest number at a position', 'isdigit', 'std::string method contracts', 'CPU_ALLOC gives a set of the requested size or null', 'pthread_setaffinity_np applies the set it is given']
ASSUMPTIONS = ['the mask syntax is what strtoull() accepts in base 0 (a sign or leading blanks included)', 'a comma after the last list item is accepted', 'a mask names CPUs 0 to 63 only (as documented in the code)', 'Linux variant of cpumask']
CM = 'hogl::cpumask'
EINVAL, ERANGE = 22, 34
UGE = lambda a, b: ULE(b, a)
Z64 = lambda x: z3.BitVecVal(x, 64) if isc(x) else z3.ZeroExt(64 - x.size(), x) if x.size() < 64 else x

class Mask:
    def __init__(self, v, empty=True):
        self.v = v
        self.p = v.obj(CM, 'mask')
        self.n = v.sym('ncpus', 64)
        v.assume(AND(self.n != 0, ULE(self.n, 1 << 16)))
        self.bytes = simp(z3.LShR(self.n + 63, 6) << 3)
        self.set = v.buf('cpuset', self.bytes)
        for f, x in (('cpuset', self.set), ('ncpus', self.n), ('nbytes', self.bytes)):
            v.set(v.st, self.p, CM, f, x)
        self.c = v.sym('cpu', 64)
        v.assume(ULT(self.c, self.n))
        v.assume(NOT(self.bit(v.st)))
    def bit(self, st):
        w = bv(st.m(self.set.reg).read(None, simp(z3.LShR(self.c, 6) << 3), 8), 64)
        return z3.Extract(0, 0, z3.LShR(w, self.c & 63)) == 1
    def quiet(self, st, s0):
        v = self.v
        v.unchanged(st, s0, self.p, CM)
        v.frame_regions(st, s0, [self.p.reg, self.set.reg] + [m.reg for m in st.mem.values() if m.reg.name == 'errno'])

def string(v):
    cxx.install(v)
    n = v.sym('length', 64)
    v.assume(ULE(n, 1 << 20))
    buf = v.buf('string', simp(n + 1))
    v.assume(EQ(v.ex.peek(v.st, Ptr(buf.reg, n), 1), 0))
    s = v.buf('std::string', 32)
    cxx.setstr(v.st, s, cxx.Str(('c', buf), 0, n))
    return s, buf, n

def digit(c):
    c = bv(c, 8)
    return z3.And(z3.UGE(c, 48), z3.ULE(c, 57))

def task_list(V):
    v = V('parse_cpulist')
    ex = v.ex
    M = Mask(v)
    s, buf, n = string(v)
    B = z3.BitVecSort(64)
    NUM, END = z3.Function('number_at', B, B), z3.Function('end_of_number', B, B)
    at = lambda st, o: bv(st.m(buf.reg).read(None, o, 1), 8)
    v.st.ghost.update(gp=z3.BitVecVal(0, 64), state=z3.BitVecVal(0, 8), first=z3.BitVecVal(0, 64), last=z3.BitVecVal(0, 64), cov=False, bad=False)
    v.model(r'^isdigit$', lambda ex, st, a, c: z3.If(z3.And(z3.UGE(bv(a[0], 32), 48), z3.ULE(bv(a[0], 32), 57)), z3.BitVecVal(1, 32), z3.BitVecVal(0, 32)))
    def strtoul(ex, st, a, c):
        ex.oblige(st, 'decimal', EQ(a[2], 10), 'pre')
        p = a[0]
        if p.reg is not buf.reg:
            raise Unsupported('number of another string')
        o = bv(p.off, 64)
        g = st.ghost
        ex.oblige(st, 'a number starts where the item before ended', EQ(o, g['gp']), 'post')
        ex.oblige(st, 'with a digit', digit(at(st, o)), 'post')
        e = END(o)
        st.assume(z3.And(z3.ULT(o, e), z3.ULE(e, n), z3.Not(digit(at(st, e)))))
        x = NUM(o)
        sec = EQ(g['state'], 1)
        range_ = AND(NOT(sec), EQ(at(st, e), ord('-')))
        first = simp(z3.If(boolv(sec), g['first'], x))
        done = NOT(range_)
        g['bad'] = OR(g['bad'], AND(done, OR(ULT(x, first), UGE(x, M.n))))
        g['cov'] = OR(g['cov'], AND(done, ULE(first, M.c), ULE(M.c, x)))
        g['first'] = first; g['last'] = x
        g['state'] = simp(z3.If(boolv(range_), z3.BitVecVal(1, 8), z3.BitVecVal(0, 8)))
        g['gp'] = simp(z3.If(boolv(OR(range_, EQ(at(st, e), ord(',')))), e + 1, e))
        if not is_null(a[1]) is True:
            ex.poke(st, a[1], 8, Ptr(buf.reg, e))
        return x
    v.model(r'^(__isoc23_)?strtou?ll?$', strtoul)
    def cands(ex, st, lv):
        g = st.ghost
        out = [('the bit is set when an item names the CPU', EQ(boolv(M.bit(st)), boolv(g['cov']))), ('well formed so far', NOT(g['bad'])), ('no open range', EQ(g['state'], 0)),
               ('position within the string', ULE(bv(g['gp'], 64), n))]
        for k, p in lv.ptrs(buf.reg):
            out.append(('%s is the next position' % (k,), EQ(bv(p.off, 64), g['gp'])))
        if ('g0',) in st.ghost or True:
            prev = g['cov']
        for k, x in lv.ints():
            if isinstance(x, (bool, z3.BoolRef)):
                continue
            x = Z64(x)
            # the item [first, last] is being set, up to x
            up = AND(ULE(g['first'], M.c), ULT(M.c, x))
            item = AND(ULE(g['first'], M.c), ULE(M.c, g['last']))
            out.append(('%s: set so far' % (k,), IMP(item, EQ(boolv(M.bit(st)), boolv(OR(up, st.ghost.get('before', False)))))))
            out.append(('%s runs over the item' % (k,), AND(ULE(g['first'], x), ULE(x, simp(bv(g['last'], 64) + 1)))))
        item = AND(ULE(g['first'], M.c), ULE(M.c, g['last']))
        out.append(('outside the item the bit says what was named', IMP(NOT(item), EQ(boolv(M.bit(st)), boolv(g['cov'])))))
        out.append(('item in range', AND(ULE(g['first'], g['last']), ULT(bv(g['last'], 64), M.n))))
        out.append(('inside the item it is named', IMP(item, g['cov'])))
        out.append(('earlier set bits stay', IMP(st.ghost.get('before', False), M.bit(st))))
        return out
    # the bit before the item (ghost), for the loop over its CPUs
    v.st.ghost['before'] = False
    def begin_num(ex, st, a, c):
        st.ghost['before'] = boolv(M.bit(st))
        return strtoul(ex, st, a, c)
    v.model(r'^zzz$', begin_num)
    ex.models[:] = [(rx, (begin_num if f is strtoul else f)) for rx, f in ex.models]
    ex._mcache.clear()
    gs = ('gp', 'state', 'first', 'last', 'cov', 'bad', 'before')
    v.loop(r'', LoopSpec(cands=cands, ghost=gs))
    s0 = v.st.clone()
    outs = v.call(r'^hogl::parse_cpulist\(', [s, M.p])
    for st, ret in outs:
        g = st.ghost
        v.ensure(st, 'accepted only when all of it is a well formed list', IMP(EQ(ret, 0), AND(EQ(g['state'], 0), NOT(g['bad']), EQ(at(st, g['gp']), 0), UGE(g['gp'], 1))))
        v.ensure(st, 'then the set has exactly the CPUs named', IMP(EQ(ret, 0), EQ(boolv(M.bit(st)), boolv(g['cov']))))
        v.ensure(st, 'rejected only for a reversed range, a CPU out of range or a missing number', IMP(NE(ret, 0), OR(g['bad'], NOT(digit(at(st, g['gp']))))))
        v.ensure(st, 'with an error number', OR(EQ(ret, 0), EQ(ret, EINVAL), EQ(ret, ERANGE)))
        M.quiet(st, s0)
    v.cover_exists('accepted', [(st, AND(EQ(ret, 0), st.ghost['cov'])) for st, ret in outs])
    v.cover_exists('rejected', [(st, NE(ret, 0)) for st, ret in outs])

def task_mask(V):
    v = V('parse_cpumask')
    ex = v.ex
    M = Mask(v)
    s, buf, n = string(v)
    er = ex.region('errno', 4)
    v.model(r'^__errno_location$', lambda ex, st, a, c: Ptr(er, 0))
    num, used, fails = v.sym('number', 64), v.sym('used', 64), v.sym('out_of_range', 'bool')
    v.assume(ULE(used, n))
    def strtoull(ex, st, a, c):
        ex.oblige(st, 'any base', EQ(a[2], 0), 'pre')
        ex.oblige(st, 'from the start of the string', ptr_eq(a[0], buf), 'pre')
        ex.oblige(st, 'with a clean errno', EQ(ex.peek(st, Ptr(er, 0), 4), 0), 'pre')
        if is_null(a[1]) is not True:
            ex.poke(st, a[1], 8, Ptr(buf.reg, used))
        ex.poke(st, Ptr(er, 0), 4, z3.If(fails, z3.BitVecVal(ERANGE, 32), z3.BitVecVal(0, 32)))
        return num
    v.model(r'^(__isoc23_)?strtoull?$', strtoull)
    want = lambda: AND(ULT(M.c, 64), z3.Extract(0, 0, z3.LShR(num, M.c)) == 1)
    def cands(ex, st, lv):
        out = []
        for k, x in lv.ints():
            if isinstance(x, (bool, z3.BoolRef)):
                continue
            x = Z64(x)
            out.append(('%s: bits below it are done' % (k,), EQ(boolv(M.bit(st)), boolv(AND(want(), ULT(M.c, x))))))
            out.append(('%s within the set' % (k,), ULE(x, M.n)))
            out.append(('%s: shifted by as many' % (k,), ULE(x, 64)))
        return out
    v.loop(r'', LoopSpec(cands=cands))
    s0 = v.st.clone()
    outs = v.call(r'^hogl::parse_cpumask\(', [s, M.p])
    good = AND(NOT(fails), used == n, used != 0)
    for st, ret in outs:
        v.ensure(st, 'accepted exactly when all of it is one number in range', EQ(boolv(EQ(ret, 0)), boolv(good)))
        v.ensure(st, 'the set has exactly the CPUs of its bits', IMP(EQ(ret, 0), EQ(boolv(M.bit(st)), boolv(want()))))
        v.ensure(st, 'nothing is set otherwise', IMP(NE(ret, 0), NOT(M.bit(st))))
        M.quiet(st, s0)
    v.cover_exists('accepted', [(st, AND(EQ(ret, 0), want(), UGE(M.c, 40))) for st, ret in outs])
    v.cover_exists('rejected', [(st, NE(ret, 0)) for st, ret in outs])

def task_affinity(V):
    v = V('parse_cpu_affinity')
    M = Mask(v)
    s, buf, n = string(v)
    pre = {'list:': v.sym('is_list', 'bool'), 'mask:': v.sym('is_mask', 'bool')}
    v.assume(NOT(AND(*pre.values())))
    v.assume(IMP(OR(*pre.values()), UGE(n, 5)))
    E = re.escape(cxx.SS)
    def compare(ex, st, a, c):
        t = lib.cstr_of(ex, st, a[3])
        ex.oblige(st, 'compares the first five characters', AND(EQ(a[1], 0), EQ(a[2], 5)), 'pre')
        k = t.decode() if t is not None else None
        if k not in pre:
            raise Unsupported('prefix %s' % t)
        return z3.If(boolv(pre[k]), z3.BitVecVal(0, 32), z3.BitVecVal(1, 32))
    v.model('^' + E + r'::compare\(unsigned long, unsigned long, char const\*\) const$', compare)
    res = v.sym('result', 32)
    v.st.ghost[('calls',)] = ()
    def parse(kind):
        def f(ex, st, a, c):
            t = cxx.getstr(ex, st, a[0])
            st.ghost[('calls',)] += ((kind, t, a[1]),)
            return res
        return f
    v.ex.models.insert(0, (re.compile(r'^hogl::parse_cpulist\('), parse('list')))
    v.ex.models.insert(0, (re.compile(r'^hogl::parse_cpumask\('), parse('mask')))
    s0 = v.st.clone()
    outs = v.call(r'^hogl::parse_cpu_affinity\(', [s, M.p])
    for st, ret in outs:
        L = st.ghost[('calls',)]
        v.ensure(st, 'parsed once, into this set', AND(len(L) == 1, *[ptr_eq(x[2], M.p) for x in L]))
        for kind, t, _ in L:
            v.ensure(st, 'as a list exactly after list:', EQ(boolv(kind == 'list'), pre['list:']))
            rest = OR(pre['list:'], pre['mask:'])
            v.ensure(st, 'all that follows the prefix', AND(cxx.src_eq(t.src, ('c', buf)), EQ(t.beg, simp(z3.If(boolv(rest), z3.BitVecVal(5, 64), z3.BitVecVal(0, 64)))), EQ(t.len, simp(z3.If(boolv(rest), n - 5, n)))))
        v.ensure(st, 'the result is passed on', EQ(ret, res))
        M.quiet(st, s0)
    for k in pre:
        v.cover_exists(k, [(st, pre[k]) for st, _ in outs])
    # cpumask
    v = V('cpumask')
    p = v.obj(CM, 'mask')
    cap = v.sym('capacity', 32)
    v.assume(AND(cap != 0, ULE(cap, 1 << 16)))
    def alloc(ex, st, a, c):
        s2 = st.clone()
        n = bv(a[0], 64)
        q = lib.new_region(ex, st, simp(z3.LShR(n + 63, 6) << 3), 'cpuset')
        return [(st, q), (s2, NULL)]
    v.model(r'^__sched_cpualloc$', alloc)
    def free(ex, st, a, c):
        ex.oblige(st, 'frees its set', AND(is_null(a[0]) is not True, getattr(a[0].reg, 'heap', False), a[0].reg.id in st.ghost.get('heap', ())), 'post')
        st.ghost['heap'] = st.ghost.get('heap', frozenset()) - {a[0].reg.id}
    v.model(r'^__sched_cpufree$', free)
    outs = v.call(r'^hogl::cpumask::cpumask\(unsigned int\)', [p, cap])
    k = v.fresh('k', 64)
    n64 = z3.ZeroExt(32, cap)
    for st, _ in outs:
        q = v.get(st, p, CM, 'cpuset', True)
        nb = bv(v.get(st, p, CM, 'nbytes'), 64)
        v.ensure(st, 'the size of the set', AND(EQ(v.get(st, p, CM, 'ncpus'), n64), UGE(simp(nb << 3), n64)))
        s1 = st.clone()
        for s2, r in v.call(r'^hogl::cpumask::valid\(\) const', [p], st.clone()):
            v.ensure(s2, 'valid when it has a set', EQ(boolv(r), NOT(is_null(q))))
        if is_null(q) is not True:
            v.ensure(st, 'a set of that size', ULE(nb, bv(q.reg.size, 64)))
            v.ensure(st, 'empty', IMP(ULT(k, nb), EQ(st.m(q.reg).read(None, k, 1), 0)))
        for s2, _ in v.call(r'^hogl::cpumask::~cpumask\(\)', [p], s1):
            v.ensure(s2, 'the set is freed', not s2.ghost.get('heap'))
    v.cover_exists('allocated', [(st, True) for st, _ in outs if is_null(v.get(st, p, CM, 'cpuset', True)) is not True])
    # set_cpu_affinity
    for dry in (False, True):
        v = V('set_cpu_affinity(dryrun %d)' % dry)
        s, buf, n = string(v)
        res, res2 = v.sym('parsed', 32), v.sym('applied', 32)
        ok = v.sym('allocated', 'bool')
        v.st.ghost[('ev',)] = ()
        log = lambda st, *a: st.ghost.__setitem__(('ev',), st.ghost[('ev',)] + (a,))
        import operator
        def add(rx, f):
            v.ex.models.insert(0, (re.compile(rx), f))
        def ctor(ex, st, a, c):
            ex.oblige(st, 'room for at least 256 CPUs', UGE(Z64(a[1]) if not isc(a[1]) else z3.BitVecVal(a[1], 64), 256), 'post')
            log(st, 'new', a[0])
        add(r'^hogl::cpumask::cpumask\(', ctor)
        add(r'^hogl::cpumask::valid\(\) const', lambda ex, st, a, c: ok)
        add(r'^hogl::cpumask::~cpumask\(\)', lambda ex, st, a, c: log(st, 'del', a[0]))
        def parse(ex, st, a, c):
            ex.oblige(st, 'parses the given string', cxx.str_eq(cxx.getstr(ex, st, a[0]), cxx.Str(('c', buf), 0, n)), 'pre')
            log(st, 'parse', a[1]); return res
        add(r'^hogl::parse_cpu_affinity\(', parse)
        add(r'^hogl::cpumask::apply\(\)', lambda ex, st, a, c: (log(st, 'apply', a[0]), res2)[1])
        outs = v.call(r'^hogl::set_cpu_affinity\(', [s, dry])
        for st, ret in outs:
            L = st.ghost[('ev',)]
            kinds = [x[0] for x in L]
            v.ensure(st, 'made and destroyed once', AND(kinds.count('new') == 1, kinds.count('del') == 1, kinds[-1] == 'del', *[ptr_eq(x[1], L[0][1]) for x in L]))
            ap = kinds.count('apply')
            v.ensure(st, 'applied exactly when the string is good and this is not a test', EQ(boolv(ap == 1), boolv(AND(ok, EQ(res, 0), not dry))))
            v.ensure(st, 'applied after it was parsed', 'apply' not in kinds or ('parse' in kinds and kinds.index('parse') < kinds.index('apply')))
            v.ensure(st, 'the result', EQ(ret, simp(z3.If(ok, z3.If(res != 0, res, z3.BitVecVal(0, 32) if dry else res2), z3.BitVecVal(EINVAL, 32)))))
        v.cover_exists('good', [(st, AND(ok, EQ(res, 0))) for st, _ in outs])
    v = V('cpumask::apply')
    M = Mask(v)
    r0 = v.sym('r', 32)
    self_ = v.sym('self', 64)
    v.model(r'^pthread_self$', lambda ex, st, a, c: self_)
    def setaff(ex, st, a, c):
        ex.oblige(st, 'this thread gets this set, all of it', AND(EQ(a[0], self_), EQ(a[1], M.bytes), ptr_eq(a[2], M.set)), 'post')
        return r0
    v.model(r'^pthread_setaffinity_np$', setaff)
    s0 = v.st.clone()
    for st, r in v.call(r'^hogl::cpumask::apply\(\)', [M.p]):
        v.ensure(st, 'the result', EQ(r, r0))
        M.quiet(st, s0)
        v.cover('returns', st)

def task_enter(V):
    SP = 'hogl::schedparam'
    for fn in ('enter', 'validate'):
        v = V('schedparam::thread_enter' if fn == 'enter' else 'schedparam::validate')
        p = v.obj(SP, 'schedparam')
        string(v)
        sp = v.fptr(p, SP, 'cpu_affinity')
        n = v.sym('length', 64)
        buf = [m.reg for m in v.st.mem.values() if m.reg.name == 'string']
        S = cxx.Str(('S', 'affinity'), 0, n)
        cxx.setstr(v.st, sp, S)
        e1, e2 = v.sym('err', 32), v.sym('err2', 32)
        v.st.ghost['calls'] = 0
        def seta(ex, st, a, c):
            ex.oblige(st, 'the affinity string of this object', cxx.str_eq(cxx.getstr(ex, st, a[0]), S), 'pre')
            ex.oblige(st, 'for real or as a test', EQ(boolv(a[1]), fn == 'validate'), 'post')
            st.ghost['calls'] += 1
            return e1
        v.ex.models.insert(0, (re.compile(r'^hogl::set_cpu_affinity\('), seta))
        v.model(r'^hogl::platform::post_early\(', lambda ex, st, a, c: None)
        v.model(r'^pthread_self$', lambda ex, st, a, c: v.sym('self', 64))
        v.model(r'^pthread_setschedparam$', lambda ex, st, a, c: e2)
        v.ex.models.insert(0, (re.compile('^' + re.escape(cxx.SS) + r'::c_str\(\) const$'), lambda ex, st, a, c: Ptr(ex.region('c_str', 8), 0)))
        v.ex._mcache.clear()
        s0 = v.st.clone()
        outs = v.call(r'^hogl::schedparam::thread_enter\(' if fn == 'enter' else r'^hogl::schedparam::validate\(\) const', [p] + ([NULL] if fn == 'enter' else []))
        for st, ret in outs:
            v.ensure(st, 'used exactly when there is an affinity string', EQ(boolv(st.ghost['calls'] == 1), NE(n, 0)))
            good = OR(EQ(n, 0), EQ(e1, 0))
            v.ensure(st, 'says whether it worked', EQ(boolv(ret), boolv(AND(good, EQ(e2, 0)) if fn == 'enter' else good)))
            v.unchanged(st, s0, p, SP)
        v.cover_exists('good', [(st, AND(ret, NE(n, 0))) for st, ret in outs])
        v.cover_exists('bad', [(st, NOT(ret)) for st, ret in outs])

TASKS = [('list', task_list), ('mask', task_mask), ('affinity', task_affinity), ('enter', task_enter)]
REPLAY = {'src': 'R18.cc', 'timeout': 100, 'libs': ['-Wl,--wrap=pthread_setaffinity_np,--wrap=pthread_setschedparam']}
