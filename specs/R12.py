from hv.sym import *
from hv.spec import *
from hv import lib, cxx
import z3, re

UNITS = {'area_h': '$VERIF/units/area.cc', 'area': '$REPO/src/area.cc', 'mask': '$REPO/src/mask.cc'}
TRUSTED = ['std::regex_match is a function of the string and the compiled expression', 'std::string method contracts (hv/cxx.py)', 'operator new does not fail', 'strdup/strcmp contracts']
ASSUMPTIONS = ['section numbers are below the section count of the area (the set/test/reset interface has no bounds check)', 'at most 2^31 sections', 'memory allocation succeeds', 'the static table of default section names is never written']
BM, AR, MK = 'hogl::bitmap', 'hogl::area', 'hogl::mask'
one = z3.BitVecVal(1, 64)

def bit(m, k):
    """bit k of the word array whose content is m"""
    k = bv(k, 64)
    w = m.read(None, simp(z3.LShR(k, 6) << 3), 8)
    return simp(((z3.LShR(bv(w, 64), k & 63)) & 1) == 1)

def mkbitmap(v, base, n32, elem=8, heap=True, pre=''):
    n64 = z3.ZeroExt(32, n32)
    nw = z3.LShR(n64 + 63, 6)
    d = v.buf(pre + 'bits', simp(nw << 3), elem=elem)
    d.reg.heap = heap
    v.assume(z3.ULE(n32, 1 << 31))
    v.ex.poke(v.st, base.plus(v.off(BM, '_data')[0]), 8, d)
    v.ex.poke(v.st, base.plus(v.off(BM, '_size')[0]), 4, n32)
    return d, simp(nw << 6)

def bitmap_ops(V):
    def setup(elem=8):
        v = V('bitmap')
        b = v.obj(BM, 'bitmap')
        n = v.sym('size', 32)
        d, nb = mkbitmap(v, b, n, elem)
        k = v.sym('k', 64)
        v.assume(ULT(k, nb))
        i = v.sym('bit', 32)
        v.assume(z3.ULT(i, n))
        return v, b, n, d, nb, k, i
    for name, args, val in (('set', 2, None), ('reset', 1, False)):
        v, b, n, d, nb, k, i = setup()
        v.name = 'bitmap::%s(bit)' % name
        x = v.sym('val', 'bool')
        s0 = v.st.clone()
        rx = r'^hogl::bitmap::set\(unsigned int, bool\)$' if args == 2 else r'^hogl::bitmap::reset\(unsigned int\)$'
        for st, _ in v.call(rx, [b, i] + ([x] if args == 2 else [])):
            new, old = bit(st.m(d.reg), k), bit(s0.m(d.reg), k)
            v.ensure(st, 'exactly the addressed bit takes the value', EQ(new, ITE(EQ(k, zext(i, 32, 64)), x if val is None else val, old)))
            v.unchanged(st, s0, b, BM)
            v.frame_regions(st, s0, [b.reg, d.reg])
            v.cover('returns', st)
    v, b, n, d, nb, k, i = setup()
    v.name = 'bitmap::test'
    s0 = v.st.clone()
    for st, r in v.call(r'^hogl::bitmap::test\(unsigned int\) const$', [b, i]):
        v.ensure(st, 'returns the addressed bit', EQ(r, bit(s0.m(d.reg), zext(i, 32, 64))))
        v.frame_regions(st, s0, [])
        v.cover('returns', st)
    for name, val in (('set', True), ('reset', False)):
        v, b, n, d, nb, k, i = setup(None)
        v.name = 'bitmap::%s()' % name
        s0 = v.st.clone()
        for st, _ in v.call(r'^hogl::bitmap::%s\(\)$' % name, [b]):
            v.ensure(st, 'every bit of the map is %s' % ('set' if val else 'clear'), IMP(ULT(k, zext(n, 32, 64)), EQ(bit(st.m(d.reg), k), val)))
            v.unchanged(st, s0, b, BM)
            v.frame_regions(st, s0, [b.reg, d.reg])
            v.cover('returns', st)
    v, b, n, d, nb, k, i = setup(None)
    v.name = 'bitmap::resize'
    m = v.sym('newsize', 32)
    v.assume(z3.ULE(m, 1 << 31))
    s0 = v.st.clone()
    for st, _ in v.call(r'^hogl::bitmap::resize\(unsigned int\)$', [b, m]):
        nd = v.get(st, b, BM, '_data', True)
        v.ensure(st, 'size is the new size', EQ(v.get(st, b, BM, '_size'), m))
        v.ensure(st, 'storage holds all bits', AND(getattr(nd.reg, 'heap', False), EQ(nd.off, 0), ULE(simp(z3.LShR(zext(m, 32, 64) + 7, 3)), nd.reg.size), ULE(simp(z3.LShR(zext(m, 32, 64) + 63, 6) << 3), nd.reg.size)))
        v.ensure(st, 'old storage is freed', d.reg.id in st.dead)
        v.frame_regions(st, s0, [b.reg, d.reg, nd.reg])
        v.cover('returns', st)
    v = V('bitmap::bitmap(n)')
    b = v.obj(BM, 'bitmap'); n = v.sym('size', 32); v.assume(z3.ULE(n, 1 << 31))
    k = v.sym('k', 64); v.assume(ULT(k, zext(n, 32, 64)))
    for st, _ in v.call(r'^hv_bm_ctor$', [b, n]):
        nd = v.get(st, b, BM, '_data', True)
        v.ensure(st, 'all bits clear', EQ(bit(st.m(nd.reg), k), False))
        v.ensure(st, 'size', EQ(v.get(st, b, BM, '_size'), n))
        v.cover('returns', st)
    v, o, n, d, nb, k, i = setup(None)
    v.name = 'bitmap copy constructor'
    v.assume(ULT(k, zext(n, 32, 64)))
    b = v.obj(BM, 'copy')
    s0 = v.st.clone()
    for st, _ in v.call(r'^hv_bm_copy$', [b, o]):
        nd = v.get(st, b, BM, '_data', True)
        v.ensure(st, 'bits are copied', EQ(bit(st.m(nd.reg), k), bit(s0.m(d.reg), k)))
        v.ensure(st, 'size', EQ(v.get(st, b, BM, '_size'), n))
        v.ensure(st, 'storage is separate', nd.reg is not d.reg)
        v.frame_regions(st, s0, [b.reg, nd.reg])
        v.cover('returns', st)
    v, b, n, d, nb, k, i = setup(None)
    v.name = 'bitmap destructor'
    for st, _ in v.call(r'^hv_bm_dtor$', [b]):
        v.ensure(st, 'storage is freed', d.reg.id in st.dead)
        v.cover('returns', st)

def mkarea(v, elem=8, pre=''):
    a = v.obj(AR, pre + 'area')
    n = v.sym(pre + 'sections', 32)
    d, nb = mkbitmap(v, v.fptr(a, AR, '_bitmap'), n, elem, pre=pre)
    name = v.buf(pre + 'name', v.sym(pre + 'namesize', 64)); name.reg.strlen = v.sym(pre + 'namelen', 64)
    v.assume(z3.ULT(name.reg.strlen, name.reg.size)); v.assume(z3.ULT(name.reg.size, 1 << 32))
    sec = v.buf(pre + 'section', simp(z3.ZeroExt(32, n) << 3), elem=8)
    v.set(v.st, a, AR, '_name', name)
    v.set(v.st, a, AR, '_section', sec)
    return a, n, d, nb, name, sec

def area_ops(V):
    F = [(r'^hogl::area::(set|enable)\(unsigned int, bool\)$', 'x', 2), (r'^hogl::area::(reset|disable)\(unsigned int\)$', False, 1)]
    for rx, val, na in F:
        v0 = V('area')
        for fn in v0.cands(rx):
            v = V(ir.demangle(fn[1:]).split('(')[0])
            a, n, d, nb, name, sec = mkarea(v)
            k = v.sym('k', 64); v.assume(ULT(k, nb))
            i = v.sym('section', 32); v.assume(z3.ULT(i, n))
            x = v.sym('val', 'bool')
            s0 = v.st.clone()
            for st, _ in v.call(fn, [a, i] + ([x] if na == 2 else [])):
                v.ensure(st, 'exactly the addressed section takes the value', EQ(bit(st.m(d.reg), k), ITE(EQ(k, zext(i, 32, 64)), x if val == 'x' else val, bit(s0.m(d.reg), k))))
                v.unchanged(st, s0, a, AR)
                v.frame_regions(st, s0, [a.reg, d.reg])
                v.cover('returns', st)
    for rx, val in ((r'^hogl::area::(set|enable)\(\)$', True), (r'^hogl::area::(reset|disable)\(\)$', False)):
        v0 = V('area')
        for fn in v0.cands(rx):
            v = V(ir.demangle(fn[1:]).split('(')[0] + '()')
            a, n, d, nb, name, sec = mkarea(v, None)
            k = v.sym('k', 64); v.assume(ULT(k, zext(n, 32, 64)))
            s0 = v.st.clone()
            for st, _ in v.call(fn, [a]):
                v.ensure(st, 'every section is %s' % ('enabled' if val else 'disabled'), EQ(bit(st.m(d.reg), k), val))
                v.unchanged(st, s0, a, AR)
                v.frame_regions(st, s0, [a.reg, d.reg])
                v.cover('returns', st)
    v = V('area::test')
    a, n, d, nb, name, sec = mkarea(v)
    i = v.sym('section', 32); v.assume(z3.ULT(i, n))
    s0 = v.st.clone()
    for st, r in v.call(r'^hogl::area::test\(unsigned int\) const$', [a, i]):
        v.ensure(st, 'tells whether the section is enabled', EQ(r, bit(s0.m(d.reg), zext(i, 32, 64))))
        v.frame_regions(st, s0, [])
        v.cover('returns', st)
    v = V('area::section_name')
    a, n, d, nb, name, sec = mkarea(v)
    i = v.sym('section', 32)
    s0 = v.st.clone()
    for st, r in v.call(r'^hogl::area::section_name\(unsigned int\) const$', [a, i]):
        if r.reg.kind == 'raw':
            v.ensure(st, 'name of that section', AND(z3.ULT(i, n), EQ(r.off, s0.m(sec.reg).read(None, simp(z3.ZeroExt(32, i) << 3), 8))))
        else:
            v.ensure(st, 'a section number outside the area is called INVALID', AND(z3.UGE(i, n), lib.cstr_of(v.ex, st, r) == b'INVALID'))
        v.frame_regions(st, s0, [])
        v.cover('returns', st)
    v = V('area::size/count/name')
    a, n, d, nb, name, sec = mkarea(v)
    for f in ('size', 'count'):
        for st, r in v.call(r'^hogl::area::%s\(\) const$' % f, [a]):
            v.ensure(st, '%s is the number of sections' % f, EQ(r, n))
    for st, r in v.call(r'^hogl::area::name\(\) const$', [a]):
        v.ensure(st, 'name', ptr_eq(r, name))
        v.cover('returns', st)

def area_ctor(V):
    # with the default sections
    v = V('area::area (default sections)')
    v.ex.const_globals.append(re.compile('default_section_names'))
    a = v.obj(AR, 'area')
    name = v.buf('name', 64); name.reg.strlen = v.sym('namelen', 64); v.assume(z3.ULT(name.reg.strlen, 64))
    s0 = v.st.clone()
    for st, _ in v.call(r'^hogl::area::area\(char const\*, char const\*\*\)$', [a, name, NULL]):
        bs = v.fptr(a, AR, '_bitmap')
        v.ensure(st, 'six sections', EQ(v.ex.peek(st, bs.plus(v.off(BM, '_size')[0]), 4), 6))
        data = v.ex.peek(st, bs.plus(v.off(BM, '_data')[0]), 8, True)
        for k in range(6):
            v.ensure(st, 'section %d starts disabled' % k, EQ(bit(st.m(data.reg), k), False))
        sp = v.get(st, a, AR, '_section', True)
        names = []
        for k in range(6):
            p = v.ex.peek(st, sp.plus(8 * k), 8, True)
            names.append(lib.cstr_of(v.ex, st, p))
        v.ensure(st, 'the documented default sections in enumerator order', names == [b'INFO', b'WARN', b'ERROR', b'FATAL', b'DEBUG', b'TRACE'])
        nm = v.get(st, a, AR, '_name', True)
        if is_null(nm) is not True:
            v.ensure(st, 'name is a private copy', AND(getattr(nm.reg, 'heap', False), ptr_eq(getattr(nm.reg, 'dup_of', NULL), name)))
        v.cover('returns', st)
    # with a caller's section list of any length
    v = V('area::area (section list)')
    ex = v.ex
    a = v.obj(AR, 'area')
    name = v.buf('name', 64); name.reg.strlen = v.sym('namelen', 64); v.assume(z3.ULT(name.reg.strlen, 64))
    n = v.sym('sections', 32)
    v.assume(z3.ULE(n, 1 << 28))
    n64 = z3.ZeroExt(32, n)
    sec = v.buf('list', simp((n64 + 1) << 3), elem=8)
    ptrs = z3.Array('list_ptrs', z3.BitVecSort(64), z3.BitVecSort(64))
    def init(idx, off, w, isptr):
        x = z3.Select(ptrs, bv(off, 64))
        return Ptr(RAW, x) if isptr else x
    sec.reg.initf = init
    v.assume(z3.Select(ptrs, n64 << 3) == 0)
    seen = {}
    def on_load(ex, st, p, w, i):
        # the list is n non-null pointers and a null (instantiated where it is read)
        if p.reg is sec.reg:
            st.assume(z3.Implies(ULT(p.off, n64 << 3), z3.Select(ptrs, bv(p.off, 64)) != 0))
    ex.on_load.append(on_load)
    DUP = z3.Function('strdup_of', z3.BitVecSort(64), z3.BitVecSort(64))
    def dup(ex, st, ar, c):
        p = ar[0]
        if p.reg is name.reg:
            return lib._strdup(ex, st, ar, c)[0][1]
        return Ptr(RAW, DUP(bv(p.addr(), 64)))
    v.model(r'^strdup$', dup)
    def newarr(ex, st, ar, c):
        nr = ex.region('new[]', simp(ar[0]), 'arr', elem=None if 'bitmap' in ex.stack[-1].name else 8)
        nr.heap = True
        return Ptr(nr, 0)
    v.model(r'^operator new\[\]\(unsigned long\)$', newarr)
    k = v.sym('k', 64)
    v.assume(ULT(k, n64))
    def cands(ex, st, lv):
        out = []
        secp = v.get(st, a, AR, '_section', True)
        for key, x in lv.ints():
            w = bv(x, 64) if isc(x) else zext(x, x.size(), 64)
            out.append(('%s counts within the list' % (key,), z3.ULE(w, n64)))
            if isinstance(secp, Ptr) and secp.reg.kind == 'arr':
                e = st.m(secp.reg).read(None, simp(k << 3), 8)
                out.append(('%s names copied' % (key,), z3.Implies(z3.ULT(k, w), bv(e, 64) == DUP(z3.Select(ptrs, k << 3)))))
        for key, p in lv.ptrs(sec.reg):
            out.append(('%s within the list' % (key,), z3.And(z3.ULE(bv(p.off, 64), n64 << 3), (bv(p.off, 64) & 7) == 0)))
        return out
    v.loop('area::area', LoopSpec(cands=cands))
    for st, _ in v.call(r'^hogl::area::area\(char const\*, char const\*\*\)$', [a, name, sec]):
        bs = v.fptr(a, AR, '_bitmap')
        v.ensure(st, 'one section per name', EQ(v.ex.peek(st, bs.plus(v.off(BM, '_size')[0]), 4), n))
        data = v.ex.peek(st, bs.plus(v.off(BM, '_data')[0]), 8, True)
        v.ensure(st, 'every section starts disabled', EQ(bitbytes(st.m(data.reg), k), False))
        sp = v.get(st, a, AR, '_section', True)
        v.ensure(st, 'section names are copies of the caller\'s, in order', EQ(st.m(sp.reg).read(None, simp(k << 3), 8), DUP(z3.Select(ptrs, k << 3))))
        v.ensure(st, 'section table has room for every name', AND(EQ(sp.off, 0), ULE(n64 << 3, sp.reg.size)))
        v.cover('returns', st)

def bitbytes(m, k):
    w = m.read(None, simp(z3.LShR(bv(k, 64), 6) << 3), 8)
    return simp(((z3.LShR(bv(w, 64), k & 63)) & 1) == 1)

STRCMP = z3.Function('strcmp', z3.BitVecSort(64), z3.BitVecSort(64), z3.BitVecSort(32))
def area_eq(V):
    v = V('area::operator==')
    a, n, d, nb, name, sec = mkarea(v, pre='a.')
    b, n2, d2, nb2, name2, sec2 = mkarea(v, pre='b.')
    def strcmp(ex, st, ar, c):
        return STRCMP(bv(ar[0].addr(), 64), bv(ar[1].addr(), 64))
    v.model(r'^strcmp$', strcmp)
    # comparing only a part says nothing about the rest
    v.model(r'^(strncmp|memcmp|strcasecmp|bcmp)$', lambda ex, st, ar, c: z3.Function('strncmp', *[z3.BitVecSort(64)] * 3, z3.BitVecSort(32))(bv(ar[0].addr(), 64), bv(ar[1].addr(), 64), bv(ar[2], 64) if len(ar) > 2 else z3.BitVecVal(0, 64)))
    v.model(r'^strlen$', lambda ex, st, ar, c: z3.Function('strlen', z3.BitVecSort(64), z3.BitVecSort(64))(bv(ar[0].addr(), 64)))
    k = v.sym('k', 64)
    def same_k(k):
        x, y = v.st.m(sec.reg).read(None, simp(bv(k, 64) << 3), 8), v.st.m(sec2.reg).read(None, simp(bv(k, 64) << 3), 8)
        return STRCMP(bv(x, 64), bv(y, 64)) == 0
    names = STRCMP(bv(name.addr(), 64), bv(name2.addr(), 64)) == 0
    def cands(ex, st, lv):
        return [('%s: compared so far' % (key,), z3.Implies(z3.ULT(k, zext(bv(x, w_of(x)), w_of(x), 64)), same_k(k))) for key, x in lv.ints()]
    def w_of(x):
        return 32 if isc(x) else x.size()
    v.loop('area::operator==', LoopSpec(cands=cands))
    s0 = v.st.clone()
    outs = v.call(r'^hogl::area::operator==\(hogl::area const&\) const$', [a, b])
    for st, r in outs:
        v.ensure(st, 'equal areas have the same name, section count and section names', IMP(r, AND(names, EQ(n, n2), z3.Implies(z3.ULT(k, z3.ZeroExt(32, n)), same_k(k)))))
        # unequal only for a reason: some compared pair differs on this path
        diff = [NOT(names), NE(n, n2)]
        for c in st.pc:
            pass
        if r is False or (not isc(r) and v.ex.feasible(st, NOT(r))):
            j = witness_section(st, sec, sec2)
            v.ensure(st, 'unequal only if name, count or a section name differs', IMP(NOT(r), OR(*(diff + [AND(ULT(x, z3.ZeroExt(32, n)), NOT(same_k(x))) for x in j]))))
        v.frame_regions(st, s0, [])
    v.cover_exists('equal', [(st, r) for st, r in outs])
    v.cover_exists('unequal section', [(st, AND(NOT(r), names, EQ(n, n2))) for st, r in outs])

def witness_section(st, sec, sec2):
    """section indices the path compared (arguments of Select on the section tables)"""
    out, seen = [], set()
    arr = sec.reg.arr()
    stack = list(st.pc)
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app_of(x, z3.Z3_OP_SELECT) and x.arg(0).eq(arr):
            out.append(simp(z3.LShR(x.arg(1), 3)))
        stack.extend(x.children())
    return out

MATCH = z3.Function('regex_match', z3.BitVecSort(64), z3.BitVecSort(64), z3.BoolSort())
def strid(ex, st, p):
    v = st.ghost.get(cxx.K('str', p))
    if v is None:
        return bv(p.addr(), 64)
    if v.src[0] == 'c' and isc(v.beg) and v.beg == 0:
        return bv(v.src[1].addr(), 64)
    raise Unsupported('match of ' + repr(v))

def mask_apply(V):
    v = V('mask::apply')
    ex = v.ex
    a, n, d, nb, name, sec = mkarea(v)
    cxx.install(v)
    DATA = 16
    o_area, o_sect, o_on = [DATA + v.off('hogl::mask::data', f)[0] for f in ('area', 'sect', 'on')]
    B = z3.BitVecSort(64)
    NEXT, PREV, ON = z3.Function('next', B, B), z3.Function('prev', B, B), z3.Function('on', B, z3.BitVecSort(8))
    S = z3.Function('state_before_rule', B, z3.BoolSort())
    nodes = ex.region('rules', DATA + v.size('hogl::mask::data'), 'fam')
    HDR = v.sym('listhdr', 64)
    def init(idx, off, w, isptr):
        if off in (0, 8) and w == 8:
            x = (NEXT if off == 0 else PREV)(bv(idx, 64))
            return Ptr(nodes, 0, x)
        if off == o_on and w == 1:
            return ON(bv(idx, 64))
        return None
    nodes.initf = init
    mk = v.obj(MK, 'mask')
    v.set(v.st, mk, MK, '_list', Ptr(nodes, 0, HDR))
    k = v.sym('k', 64)
    v.assume(ULT(k, nb))
    kname = z3.Select(sec.reg.arr(), k << 3)
    nm = bv(name.addr(), 64)
    insec = ULT(k, z3.ZeroExt(32, n))
    def re_match(ex, st, ar, c):
        return MATCH(strid(ex, st, ar[0]), bv(ar[1].addr(), 64))
    v.model(r'^bool std::regex_match<.*\(std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> > const&, std::__cxx11::basic_regex|^bool std::regex_match<.*\(char const\*, std::__cxx11::basic_regex', re_match)
    def sect_applies(node):
        return AND(MATCH(nm, simp(node + o_area)), insec, MATCH(kname, simp(node + o_sect)))
    def step(node):
        return S(NEXT(node)) == z3.If(boolv(sect_applies(node)), (ON(node) & 1) == 1, S(node))
    v.assume(S(NEXT(HDR)) == bit(v.st.m(d.reg), k))
    def cur_of(st):
        return st.ghost.get(('cur',))
    def cands(ex, st, lv):
        out = []
        b = bit(st.m(d.reg), k)
        eb = bit(lv.entry.m(d.reg), k)
        for key, p in lv.ptrs(nodes):
            if isc(p.off) and p.off == 0:
                out.append(('section bit is what the rules before %s say' % (key,), b == S(p.idx)))
        c = cur_of(lv.entry)
        if c is not None:
            for key, x in lv.ints():
                w = 32 if isc(x) else x.size()
                x = zext(bv(x, w), w, 64)
                out.append(('%s: sections so far follow the rule' % (key,), b == z3.If(boolv(AND(ULT(k, x), insec, MATCH(kname, simp(c + o_sect)))), (ON(c) & 1) == 1, eb)))
        return out
    def begin(ex, st, lv):
        ps = [p for key, p in lv.ptrs(nodes) if isc(p.off) and p.off == 0]
        if len(ps) >= 1 and cur_of(lv.entry) is None:
            st.ghost[('cur',)] = ps[0].idx
            for p in ps:
                st.assume(step(p.idx))
    v.loop('', LoopSpec(cands=cands, begin=begin))
    s0 = v.st.clone()
    outs = v.call(r'^hogl::mask::apply\(hogl::area&\) const$', [mk, a])
    for st, _ in outs:
        v.ensure(st, 'each section is as the last matching rule says, unchanged if none matches', EQ(bit(st.m(d.reg), k), S(HDR)))
        v.unchanged(st, s0, a, AR)
        v.unchanged(st, s0, mk, MK)
        v.ensure(st, 'rules are not modified', st.m(nodes).layers == s0.m(nodes).layers)
        v.frame_regions(st, s0, [a.reg, d.reg, mk.reg, nodes])
    v.cover_exists('applied', [(st, True) for st, _ in outs])

def mask_add(V):
    v = V('mask::add')
    ex = v.ex
    cxx.install(v)
    n = v.sym('len', 64)
    v.assume(z3.ULT(n, 1 << 40))
    chars = ex.region('rule', simp(n + 1), 'arr')
    chars.ro = True
    src = ('tok', 'rule')
    ex.strchars = {src: chars}
    ex.strids = {src: 1}
    v.assume(bv(v.st.m(chars).read(None, n, 1), 8) == 0)
    s = v.buf('string', 32)
    cxx.setstr(v.st, s, cxx.Str(src, 0, n))
    mk = v.obj(MK, 'mask')
    lst = v.buf('list', 24)
    v.set(v.st, mk, MK, '_list', lst)
    def regex(ex, st, ar, c):
        p = ar[1]
        st.ghost[cxx.K('re', ar[0])] = (cxx.getstr(ex, st, p), ar[2] if len(ar) > 2 else None)
    RS = r'^std::__cxx11::basic_regex<char, std::__cxx11::regex_traits<char> >::'
    v.model(RS + r'basic_regex<.*\(std::__cxx11::basic_string<.*> const&, std::regex_constants::syntax_option_type\)$', regex)
    def regex_copy(ex, st, ar, c):
        st.ghost[cxx.K('re', ar[0])] = st.ghost[cxx.K('re', ar[1])]
    v.model(RS + r'basic_regex\(std::__cxx11::basic_regex<char, std::__cxx11::regex_traits<char> >( const)?&&?\)$', regex_copy)
    v.model(RS + r'~basic_regex\(\)$', lambda ex, st, ar, c: None)
    offs = [v.off('hogl::mask::data', f)[0] for f in ('str', 'area', 'sect', 'on')]
    def push(ex, st, ar, c):
        p = ar[1]
        on = ex.peek(st, p.plus(offs[3]), 1)
        st.ghost['pushed'] = st.ghost.get('pushed', ()) + ((ar[0], st.ghost.get(cxx.K('str', p)), st.ghost.get(cxx.K('re', p.plus(offs[1]))), st.ghost.get(cxx.K('re', p.plus(offs[2]))), on),)
    v.model(r'^std::__cxx11::list<hogl::mask::data, .*::push_back\(hogl::mask::data( const&|&&)\)$', push)
    v.model(r'^std::regex_constants::operator\|\(', lambda ex, st, ar, c: ex.binop(None, 'or', ar[0], ar[1], 32, ()))
    bang = bv(v.st.m(chars).read(None, 0, 1), 8) == 0x21
    abeg = z3.If(bang, z3.BitVecVal(1, 64), z3.BitVecVal(0, 64))
    colon = cxx.STRFIND(z3.BitVecVal(1, 64), z3.BitVecVal(0x3a, 8), simp(abeg))
    nocolon = colon == z3.BitVecVal(-1, 64)
    # the token structure of any rule: [!][area:]section
    s0 = v.st.clone()
    outs = v.call(r'^hogl::mask::add\(', [mk, s])
    dotstar = cxx.Str(('lit', b'.*'), 0, 2)
    def view(sv, beg, ln):
        """sv is the piece of the rule [beg, beg+ln), or '.*' when that piece is empty"""
        if sv.src[0] == 'lit':
            return AND(sv.src[1] == b'.*', EQ(ln, 0))
        return AND(sv.src == src, NE(ln, 0), EQ(sv.beg, beg), EQ(sv.len, ln))
    for st, _ in outs:
        pushed = st.ghost.get('pushed', ())
        v.ensure(st, 'one rule is appended to the mask', len(pushed) == 1)
        if len(pushed) != 1:
            continue
        l, ds, ra, rs, on = pushed[0]
        v.ensure(st, 'the rule goes to this mask', ptr_eq(l, lst))
        v.ensure(st, 'a leading ! makes it a disabling rule, anything else an enabling one', EQ(trunc(on, 1), NOT(bang)))
        v.ensure(st, 'the rule keeps its text', cxx.str_eq(ds, cxx.Str(src, 0, n)))
        if ra is None or rs is None:
            v.ensure(st, 'both expressions are compiled', False)
            continue
        v.ensure(st, 'POSIX extended expressions', AND(EQ(bv(ra[1], 32) & 0x20, ex_flag(rs)), EQ(bv(ra[1], 32), bv(rs[1], 32))))
        alen = simp(z3.If(nocolon, z3.BitVecVal(0, 64), colon - abeg))
        sbeg = simp(z3.If(nocolon, abeg, colon + 1))
        v.ensure(st, 'the area expression is what precedes the first colon, or everything', view(ra[0], simp(abeg), alen))
        v.ensure(st, 'the section expression is what follows the first colon (the whole rule without one), or everything', view(rs[0], sbeg, simp(n - sbeg)))
        v.unchanged(st, s0, mk, MK)
        v.frame_regions(st, s0, [mk.reg])
    v.cover_exists('disabling rule with area and section', [(st, AND(bang, NOT(nocolon))) for st, _ in outs])
    v.cover_exists('enabling rule without area', [(st, AND(NOT(bang), nocolon)) for st, _ in outs])

def ex_flag(rs):
    return bv(rs[1], 32) & 0x20

def mask_copy(V):
    def base(name):
        v = V(name)
        m = v.obj(MK, 'mask'); l = v.buf('list', 24); l.reg.heap = True
        v.set(v.st, m, MK, '_list', l)
        v.st.ghost[('rules', l.reg.id)] = 'R'
        LP = r'^std::__cxx11::list<hogl::mask::data, std::allocator<hogl::mask::data> >::'
        def copy(ex, st, ar, c):
            ex.check_access(st, ar[1], 24, 'read')
            st.ghost[('rules', ar[0].reg.id)] = st.ghost.get(('rules', ar[1].reg.id))
        v.model(LP + r'list\(std::__cxx11::list<.*> const&\)$', copy)
        def empty(ex, st, ar, c):
            st.ghost[('rules', ar[0].reg.id)] = 'empty'
        v.model(LP + r'list\(\)$', empty)
        v.model(LP + r'clear\(\)$', empty)
        def asg(ex, st, ar, c):
            ex.check_access(st, ar[1], 24, 'read')
            st.ghost[('rules', ar[0].reg.id)] = st.ghost.get(('rules', ar[1].reg.id))
            return ar[0]
        v.model(LP + r'operator=\(std::__cxx11::list<.*> const&\)$', asg)
        def dtor(ex, st, ar, c):
            ex.check_access(st, ar[0], 24, 'read')
            st.ghost[('rules', ar[0].reg.id)] = 'destroyed'
        v.model(r'^std::__cxx11::(list|_List_base)<hogl::mask::data, .*::~(list|_List_base)\(\)$', dtor)
        return v, m, l
    def rules(v, st, m):
        l = v.get(st, m, MK, '_list', True)
        return st.ghost.get(('rules', l.reg.id)) if l.reg.id not in st.dead else 'freed'
    for rx in (r'^hogl::mask::mask\(hogl::mask const&\)$', r'^hogl::mask::mask\(hogl::mask&\)$'):
        v, m, l = base('mask copy constructor')
        t = v.obj(MK, 'copy')
        s0 = v.st.clone()
        for st, _ in v.call(rx, [t, m]):
            v.ensure(st, 'the copy has the same rules', rules(v, st, t) == 'R')
            v.ensure(st, 'in a list of its own', v.get(st, t, MK, '_list', True).reg is not l.reg)
            v.unchanged(st, s0, m, MK)
            v.cover('returns', st)
    for self_ in (False, True):
        v, m, l = base('mask::operator=' + (' (to itself)' if self_ else ''))
        if self_:
            t = m
        else:
            t = v.obj(MK, 'target'); tl = v.buf('tlist', 24); tl.reg.heap = True
            v.set(v.st, t, MK, '_list', tl)
            v.st.ghost[('rules', tl.reg.id)] = 'T'
        for st, _ in v.call(r'^hogl::mask::operator=\(hogl::mask const&\)$', [t, m]):
            v.ensure(st, 'the target has the rules of the source', rules(v, st, t) == 'R')
            v.ensure(st, 'the source keeps its rules', rules(v, st, m) == 'R')
            v.ensure(st, 'lists are separate', self_ or v.get(st, t, MK, '_list', True).reg is not l.reg)
            if not self_:
                nl = v.get(st, t, MK, '_list', True)
                v.ensure(st, 'no list is leaked', nl.reg is tl.reg or tl.reg.id in st.dead)
            v.cover('returns', st)
    v, m, l = base('mask::mask / clear / ~mask')
    t = v.obj(MK, 'new')
    for st, _ in v.call(r'^hogl::mask::mask\(\)$', [t]):
        v.ensure(st, 'a new mask has no rules', rules(v, st, t) == 'empty')
    for st, _ in v.call(r'^hogl::mask::clear\(\)$', [m], v.st.clone()):
        v.ensure(st, 'clear removes every rule', rules(v, st, m) == 'empty')
    for st, _ in v.call(r'^hogl::mask::~mask\(\)$', [m], v.st.clone()):
        v.ensure(st, 'the list is freed', l.reg.id in st.dead and st.ghost.get(('rules', l.reg.id)) == 'destroyed')
        v.cover('destroyed', st)
    # delegation
    v = V('mask::operator<<')
    m = v.obj(MK, 'mask'); s = v.buf('str', 32)
    def add_(ex, st, ar, c):
        st.ghost['adds'] = st.ghost.get('adds', ()) + ((ar[0], ar[1]),)
    v.model(r'^hogl::mask::add\(', add_)
    for st, r in v.call(r'^hogl::mask::operator<<\(std::', [m, s]):
        ad = st.ghost.get('adds', ())
        v.ensure(st, 'adds that rule once and returns the mask', AND(len(ad) == 1, len(ad) == 1 and ptr_eq(ad[0][0], m), len(ad) == 1 and ptr_eq(ad[0][1], s), ptr_eq(r, m)))
        v.cover('returns', st)

def mask_stream(V):
    v = V('operator>>(istream, mask)')
    ex = v.ex
    cxx.install(v)
    m = v.obj(MK, 'mask'); stream = Ptr(ex.region('stream', 64), 0)
    vt = ex.region('vtable', 64, cells={(0, 8): 16})
    stream.reg.ptrs[0] = Ptr(vt, 24)
    v.st.ghost['pending'] = False
    def getline(ex, st, ar, c):
        ex.oblige(st, 'the previous line was added before the next one is read', NOT(st.ghost.get('pending', False)), 'post')
        n = ex.fresh('linelen', 64)
        s2 = st.clone()
        line = cxx.Str(('tok', str(n)), 0, n)
        cxx.setstr(st, cxx.P(ex, st, ar[1]), line)
        st.ghost[('line',)] = line
        st.ghost['pending'] = NE(n, 0)
        st.ghost[('good',)] = True
        cxx.setstr(s2, cxx.P(ex, st, ar[1]), cxx.Str(('lit', b''), 0, 0))
        s2.ghost[('good',)] = False
        s2.ghost[('line',)] = None
        s2.ghost['pending'] = False
        return [(st, ar[0]), (s2, ar[0])]
    v.model(r'std::getline<', getline)
    v.model(r'^std::basic_ios<char, std::char_traits<char> >::(operator bool|good)\(\) const$', lambda ex, st, ar, c: st.ghost[('good',)])
    v.model(r'^std::basic_ios<char, std::char_traits<char> >::operator!\(\) const$', lambda ex, st, ar, c: not st.ghost[('good',)])
    def add_(ex, st, ar, c):
        x = cxx.getstr(ex, st, ar[1])
        ln = st.ghost.get(('line',))
        ex.oblige(st, 'only lines read from the stream are added, each once', AND(st.ghost.get('pending', False), ln is not None and cxx.str_eq(x, ln), ptr_eq(ar[0], m)), 'post')
        st.ghost['pending'] = False
        return ar[0]
    v.model(r'^hogl::mask::(add|operator<<)\(std::', add_)
    def inv(ex, st, lv):
        return [('every line read so far was added', NOT(st.ghost.get('pending', False)))]
    v.loop('', LoopSpec(inv=inv))
    for st, r in v.call(r'^hogl::operator>>\(std::basic_istream', [stream, m]):
        v.ensure(st, 'every line read was added', NOT(st.ghost.get('pending', False)))
        v.ensure(st, 'returns the stream', ptr_eq(r, stream))
        v.cover('returns', st)

TASKS = [('bitmap', bitmap_ops), ('area', area_ops), ('area_ctor', area_ctor), ('area_eq', area_eq), ('mask_apply', mask_apply), ('mask_add', mask_add), ('mask_copy', mask_copy), ('mask_stream', mask_stream)]
REPLAY = {'src': 'R12.cc', 'timeout': 100}
