"""Values, memory and states of the symbolic executor."""
import z3
from . import ir

MASK = [(1 << w) - 1 for w in range(0, 257)]

class Unsupported(Exception):
    pass

# ---- bit-vector helpers: python ints are constants (unsigned, normalised) -----------------
def bv(v, w):
    if isinstance(v, bool):
        return z3.BitVecVal(int(v), w)
    if isinstance(v, int):
        return z3.BitVecVal(v & MASK[w], w)
    if isinstance(v, Ptr):
        v = v.addr()
        return bv(v, w)
    if z3.is_bool(v):
        return z3.If(v, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
    return v

def isc(v):
    return isinstance(v, (int, bool))

def norm(v):
    """fold a z3 numeral to int"""
    if isinstance(v, z3.BitVecNumRef):
        return v.as_long()
    return v

def simp(v):
    if isc(v) or isinstance(v, Ptr):
        return v
    v = z3.simplify(v)
    if isinstance(v, z3.BitVecNumRef):
        return v.as_long()
    if z3.is_true(v):
        return True
    if z3.is_false(v):
        return False
    return v

def boolv(b):
    if isinstance(b, bool):
        return z3.BoolVal(b)
    if isinstance(b, int):
        return z3.BoolVal(bool(b))
    if z3.is_bv(b):
        return b == 1
    return b

def AND(*a):
    a = [x for x in a if x is not True]
    if any(x is False for x in a):
        return False
    if not a:
        return True
    if len(a) == 1:
        return a[0]
    return z3.And(*[boolv(x) for x in a])

def OR(*a):
    a = [x for x in a if x is not False]
    if any(x is True for x in a):
        return True
    if not a:
        return False
    if len(a) == 1:
        return a[0]
    return z3.Or(*[boolv(x) for x in a])

def NOT(a):
    if isinstance(a, bool):
        return not a
    return z3.Not(boolv(a))

def IMP(a, b):
    return OR(NOT(a), b)

def ITE(c, a, b, w=None):
    if c is True:
        return a
    if c is False:
        return b
    if isinstance(a, Ptr) or isinstance(b, Ptr):
        if same(a, b):
            return a
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.reg is b.reg and a.idx is not None and isc(a.off) and a.off == b.off:
            return Ptr(a.reg, a.off, ITE(c, a.idx, b.idx, 64))
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.reg is b.reg and a.idx is None:
            return Ptr(a.reg, simp(z3.If(boolv(c), bv(a.off, 64), bv(b.off, 64))))
        w = 64
        return Ptr(RAW, simp(z3.If(boolv(c), bv(a, 64), bv(b, 64))))
    if same(a, b):
        return a
    if isinstance(a, bool) or isinstance(b, bool) or (not isc(a) and z3.is_bool(a)) or (not isc(b) and z3.is_bool(b)):
        return z3.If(boolv(c), boolv(a), boolv(b))
    if w is None:
        w = (a if not isc(a) else b).size() if not (isc(a) and isc(b)) else 64
    return z3.If(boolv(c), bv(a, w), bv(b, w))

def same(a, b):
    if a is b:
        return True
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return a.reg is b.reg and same(a.off, b.off) and (a.idx is b.idx or (a.idx is not None and b.idx is not None and same(a.idx, b.idx)))
    if isinstance(a, Ptr) or isinstance(b, Ptr):
        return False
    if isinstance(a, list) or isinstance(b, list):
        return a is b
    if isc(a) and isc(b):
        return a == b
    if isc(a) or isc(b):
        return False
    return a.eq(b)

def EQ(a, b, w=64):
    if isinstance(a, Ptr) or isinstance(b, Ptr):
        return ptr_eq(a, b)
    if isc(a) and isc(b):
        return a == b
    if same(a, b):
        return True
    if not isc(a) and z3.is_bool(a) or not isc(b) and z3.is_bool(b):
        return simp(boolv(a) == boolv(b))
    w = (a if not isc(a) else b).size()
    return simp(bv(a, w) == bv(b, w))

def NE(a, b, w=64):
    return NOT(EQ(a, b, w))

def ULT(a, b, w=64):
    if isc(a) and isc(b):
        return a < b
    w = (a if not isc(a) else b).size()
    return z3.ULT(bv(a, w), bv(b, w))

def ULE(a, b, w=64):
    if isc(a) and isc(b):
        return a <= b
    w = (a if not isc(a) else b).size()
    return z3.ULE(bv(a, w), bv(b, w))

def SLT(a, b, w=64):
    w = (a if not isc(a) else b).size() if not (isc(a) and isc(b)) else w
    return simp(bv(a, w) < bv(b, w))

def width(v, default=64):
    return default if isc(v) else v.size()

def add(a, b, w=64):
    if isc(a) and isc(b):
        return (a + b) & MASK[w]
    if isc(a) and a == 0:
        return b
    if isc(b) and b == 0:
        return a
    return simp(bv(a, w) + bv(b, w))

def sub(a, b, w=64):
    if isc(a) and isc(b):
        return (a - b) & MASK[w]
    if isc(b) and b == 0:
        return a
    return simp(bv(a, w) - bv(b, w))

def zext(v, frm, to):
    if isc(v):
        return int(v)
    if z3.is_bool(v):
        return z3.If(v, z3.BitVecVal(1, to), z3.BitVecVal(0, to))
    if v.size() == to:
        return v
    return z3.ZeroExt(to - v.size(), v)

def sext(v, frm, to):
    if isc(v):
        v = int(v)
        return (v | (MASK[to] & ~MASK[frm])) if v >> (frm - 1) else v
    if z3.is_bool(v):
        return z3.If(v, z3.BitVecVal(-1, to), z3.BitVecVal(0, to))
    if v.size() == to:
        return v
    return z3.SignExt(to - v.size(), v)

def trunc(v, to):
    if isc(v):
        v = int(v)
        return bool(v & 1) if to == 1 else v & MASK[to]
    if z3.is_bool(v):
        return v if to == 1 else bv(v, to)
    if to == 1:
        if z3.is_app_of(v, z3.Z3_OP_ITE) and isinstance(v.arg(1), z3.BitVecNumRef) and isinstance(v.arg(2), z3.BitVecNumRef) \
                and v.arg(1).as_long() == 1 and v.arg(2).as_long() == 0:
            return v.arg(0)
        return simp(z3.Extract(0, 0, v) == 1)
    if v.size() == to:
        return v
    return simp(z3.Extract(to - 1, 0, v))

def extract(v, hi, lo, w):
    if isc(v):
        return (int(v) >> lo) & MASK[hi - lo + 1]
    if isinstance(v, Ptr):
        v = v.addr()
        return extract(v, hi, lo, 64)
    if lo == 0 and hi == v.size() - 1:
        return v
    return simp(z3.Extract(hi, lo, v))

def concat(parts):
    """parts: list of byte values, lowest address first"""
    if all(isc(p) for p in parts):
        r = 0
        for i, p in enumerate(parts):
            r |= int(p) << (8 * i)
        return r
    if len(parts) == 1:
        return parts[0]
    return simp(z3.Concat(*[bv(p, 8) for p in reversed(parts)]))

# ---- regions and pointers -------------------------------------------------------------------
class Region:
    """An allocated object.  kind:
       obj  concrete-size object addressed (mostly) at concrete offsets
       arr  byte array with possibly symbolic offsets
       fam  a family of identical objects, addressed by (identity, concrete offset)
       fn   a function;  null"""
    n = 0
    def __init__(self, name, size=None, kind='obj', init=None, zero=False, ro=False, elem=None, ptrs=None, nullable=False, check=True, cells=None, undef=False):
        Region.n += 1
        self.id = Region.n
        self.name = name
        self.size = size
        self.kind = kind
        self.initf = init
        self.zero = zero
        self.ro = ro
        self.elem = elem
        self.ptrs = dict(ptrs or {})
        self.nullable = nullable
        self.check = check
        self.undef = undef
        self.cells0 = cells
        self.famtype = {}
        self.stride = None
        self.count = None
        self._base = None
        self._arr = None
    @property
    def base(self):
        if self._base is None:
            self._base = z3.BitVec('&%s#%d' % (self.name, self.id), 64)
        return self._base
    def arr(self):
        if self._arr is None:
            if self.elem:
                self._arr = z3.Array('%s#%d[]' % (self.name, self.id), z3.BitVecSort(64), z3.BitVecSort(8 * self.elem))
            else:
                self._arr = z3.Array('%s#%d[]' % (self.name, self.id), z3.BitVecSort(64), z3.BitVecSort(8))
        return self._arr
    def init(self, idx, off, n, isptr):
        """initial content"""
        if self.initf:
            r = self.initf(idx, off, n, isptr)
            if r is not None:
                return r
        if self.zero:
            return 0
        if self.cells0 is not None and isc(off):
            r = self.cells0.get((off, n))
            if r is not None:
                return r
        if self.kind in ('fam', 'aos'):
            f = z3.Function('%s@%d:%d' % (self.name, off, n), z3.BitVecSort(64), z3.BitVecSort(8 * n))
            v = f(bv(idx, 64))
            if (off, n) in self.famtype:
                return self.famtype[(off, n)](v)
            return Ptr(RAW, v) if isptr else v
        if self.elem:
            if n == self.elem:
                v = z3.Select(self.arr(), bv(off, 64))
                return Ptr(RAW, v) if isptr else v
            if n < self.elem and isc(off):
                b = off // self.elem * self.elem
                v = z3.Select(self.arr(), bv(b, 64))
                return extract(v, 8 * (off - b) + 8 * n - 1, 8 * (off - b), 8 * self.elem)
            raise Unsupported('mixed-size access to element array ' + self.name)
        if self.kind == 'arr' or not isc(off):
            if self.kind != 'arr' and isc(self.size) and self.size <= 256 and not self.ptrs:
                # enumerate the aligned positions of a small object
                r = None
                for o in range(0, self.size - n + 1, n):
                    v = self.init(idx, o, n, False)
                    r = v if r is None else ITE(bv(off, 64) == o, v, r, 8 * n)
                return r
            bs = [z3.Select(self.arr(), bv(add(off, i), 64)) for i in range(n)]
            v = concat(bs)
            return Ptr(RAW, v) if isptr else v
        if off in self.ptrs and n == 8:
            p = self.ptrs[off]
            if callable(p):
                p = p()
                self.ptrs[off] = p
            return p if isptr else p.addr()
        # word symbols
        k = off // 8
        if off % 8 + n <= 8:
            p = self.ptrs.get(k * 8)
            w = p.addr() if isinstance(p, Ptr) else z3.BitVec('%s#%d.w%d' % (self.name, self.id, k * 8), 64)
            if n == 8:
                return Ptr(RAW, w) if isptr else w
            return extract(w, (off % 8) * 8 + 8 * n - 1, (off % 8) * 8, 64)
        return concat([self.init(idx, off + i, 1, False) for i in range(n)])
    def __repr__(self):
        return 'R<%s#%d>' % (self.name, self.id)

RAW = Region('raw', kind='raw')
NULLR = Region('null', size=0, kind='null')
_fnr = {}
def fnptr(name):
    if name not in _fnr:
        _fnr[name] = Region(name, size=1, kind='fn')
    return Ptr(_fnr[name], 0)

class Ptr:
    __slots__ = ('reg', 'off', 'idx')
    def __init__(self, reg, off=0, idx=None):
        self.reg = reg; self.off = off; self.idx = idx
    def addr(self):
        if self.reg is NULLR:
            return self.off
        if self.reg is RAW:
            return self.off
        if self.reg.kind == 'fam':
            return add(self.idx, self.off)
        if self.idx is not None:
            return add(add(self.reg.base, simp(bv(self.idx, 64) * self.reg.stride)), self.off)
        return add(self.reg.base, self.off)
    def plus(self, d):
        return Ptr(self.reg, add(self.off, d), self.idx)
    def __repr__(self):
        return 'Ptr(%s,%s%s)' % (self.reg.name, self.off, '' if self.idx is None else ',idx=%s' % self.idx)

NULL = Ptr(NULLR, 0)

def linform(e):
    """linear form of a 64-bit term modulo 2^64: (const, [(coef, term)])"""
    if isc(e):
        return int(e), []
    if isinstance(e, z3.BitVecNumRef):
        return e.as_long(), []
    k = e.decl().kind()
    M = MASK[64]
    if k == z3.Z3_OP_BADD:
        c, t = 0, []
        for x in e.children():
            c1, t1 = linform(x)
            c = (c + c1) & M; t += t1
        return c, t
    if k == z3.Z3_OP_BSUB:
        c, t = linform(e.arg(0))
        for x in e.children()[1:]:
            c1, t1 = linform(x)
            c = (c - c1) & M; t = t + [((-a) & M, y) for a, y in t1]
        return c, t
    if k == z3.Z3_OP_BNEG:
        c, t = linform(e.arg(0))
        return (-c) & M, [((-a) & M, y) for a, y in t]
    if k == z3.Z3_OP_BMUL and isinstance(e.arg(0), z3.BitVecNumRef):
        m = e.arg(0).as_long()
        rest = e.children()[1:]
        x = rest[0]
        for y in rest[1:]:
            x = x * y
        c, t = linform(x)
        return (c * m) & M, [((a * m) & M, y) for a, y in t]
    if k == z3.Z3_OP_BSHL and isinstance(e.arg(1), z3.BitVecNumRef):
        m = 1 << e.arg(1).as_long()
        c, t = linform(e.arg(0))
        return (c * m) & M, [((a * m) & M, y) for a, y in t]
    if k == z3.Z3_OP_CONCAT and isinstance(e.children()[-1], z3.BitVecNumRef) and e.children()[-1].as_long() == 0:
        z = e.children()[-1].size()
        hi = e.children()[:-1]
        h = hi[0] if len(hi) == 1 else z3.Concat(*hi)
        if h.decl().kind() == z3.Z3_OP_EXTRACT and h.params()[1] == 0 and h.arg(0).size() == 64:
            c, t = linform(h.arg(0))
        else:
            c, t = linform(z3.simplify(z3.ZeroExt(z, h)))
        return (c << z) & M, [((a << z) & M, y) for a, y in t]
    return 0, [(1, e)]

def aos_split(off, stride):
    """byte offset -> (index, field offset), None when it is not a multiple of the stride plus a constant"""
    c, ts = linform(off if isc(off) else z3.simplify(off))
    acc = {}
    for a, t in ts:
        k = t.get_id()
        acc[k] = ((acc.get(k, (0, t))[0] + a) & MASK[64], t)
    sg = lambda x: x - (1 << 64) if x >> 63 else x
    idx = None
    for a, t in acc.values():
        a = sg(a)
        if a % stride:
            return None
        if a == 0:
            continue
        q = t * z3.BitVecVal((a // stride) & MASK[64], 64) if a // stride != 1 else t
        idx = q if idx is None else idx + q
    f = sg(c) % stride
    k = sg(c) // stride
    if idx is None:
        return k & MASK[64], f
    return simp(idx + z3.BitVecVal(k & MASK[64], 64)), f

def aos_norm(p):
    if p.idx is not None:
        return p
    r = aos_split(p.off, p.reg.stride)
    if r is None:
        raise Unsupported('offset into %s is not an element plus a field' % p.reg.name)
    return Ptr(p.reg, r[1], r[0])

def is_null(p):
    """condition: p is null"""
    if isinstance(p, Ptr):
        if p.reg is NULLR:
            return EQ(p.off, 0)
        if p.reg is RAW:
            return EQ(p.off, 0)
        if p.reg.kind == 'fam':
            return EQ(p.idx, 0) if p.reg.nullable else False
        return False
    return EQ(p, 0)

def ptr_eq(a, b):
    if not isinstance(a, Ptr):
        a = NULL if isc(a) and a == 0 else Ptr(RAW, a)
    if not isinstance(b, Ptr):
        b = NULL if isc(b) and b == 0 else Ptr(RAW, b)
    if a.reg is NULLR and b.reg is NULLR:
        return EQ(a.off, b.off)
    if a.reg is NULLR and isc(a.off) and a.off == 0:
        return is_null(b)
    if b.reg is NULLR and isc(b.off) and b.off == 0:
        return is_null(a)
    if a.reg is RAW or b.reg is RAW:
        return EQ(simp(bv(a, 64)), simp(bv(b, 64)))
    if a.reg is not b.reg:
        return False
    if a.idx is not None:
        return AND(EQ(a.idx, b.idx), EQ(a.off, b.off))
    return EQ(a.off, b.off)

def val_eq(a, b):
    if isinstance(a, Ptr) or isinstance(b, Ptr):
        return ptr_eq(a, b)
    return EQ(a, b)

# ---- memory objects: a log of writes over the initial content -----------------------------------
class Mem:
    """immutable-by-convention: write() returns a new Mem"""
    __slots__ = ('layers', 'reg')
    def __init__(self, reg, layers=()):
        self.reg = reg
        self.layers = layers
    def write(self, idx, off, n, v):
        if isc(off) and idx is None:
            L = self.layers
            if L and L[-1][0] == 'cells':
                d = dict(L[-1][1])
                base = L[:-1]
            else:
                d = {}
                base = L
            for o in [o for o in d if o < off + n and o + d[o][0] > off]:
                m, ov = d.pop(o)
                # keep the parts outside
                for k in range(m):
                    if not (off <= o + k < off + n):
                        d[o + k] = (1, extract(ov, 8 * k + 7, 8 * k, 8 * m))
            d[off] = (n, v)
            return Mem(self.reg, base + (('cells', d),))
        L = self.layers
        if L and L[-1][0] == 'sym' and L[-1][3] == n and same(L[-1][2], off) and (idx is None or same(idx, L[-1][1])):
            L = L[:-1]
        elif L and idx is not None and isc(off):
            # drop an earlier write to the very same location if only provably disjoint fields were written since
            for k in range(len(L) - 1, -1, -1):
                e = L[k]
                if e[0] != 'sym' or not isc(e[2]):
                    break
                if e[2] == off and e[3] == n and same(e[1], idx):
                    L = L[:k] + L[k + 1:]
                    break
                if not (e[2] + e[3] <= off or off + n <= e[2]):
                    break
        return Mem(self.reg, L + (('sym', idx, off, n, v),))
    def copy_in(self, off, n, src, srcoff):
        """bytes [off,off+n) := src[srcoff..]; src is a Mem"""
        return Mem(self.reg, self.layers + (('copy', off, n, src, srcoff),))
    def copy_elems(self, idx, n, src, sidx):
        """elements [idx, idx+n) := elements of src from sidx"""
        return Mem(self.reg, self.layers + (('ecopy', idx, n, src, sidx),))
    def fill(self, off, n, b):
        return Mem(self.reg, self.layers + (('fill', off, n, b),))
    def havoc(self, arr):
        return Mem(self.reg, self.layers + (('havoc', arr),))
    def havoc_range(self, off, n, arr):
        return Mem(self.reg, self.layers + (('hrange', off, n, arr),))
    def read(self, idx, off, n, isptr=False, top=None):
        k = len(self.layers) if top is None else top
        while k > 0:
            k -= 1
            e = self.layers[k]
            t = e[0]
            if t == 'cells':
                d = e[1]
                if isc(off):
                    c = d.get(off)
                    if c and c[0] == n:
                        return c[1]
                    ov = [o for o in range(off - 15, off + n) if o in d and o + d[o][0] > off] if True else []
                    if not ov:
                        continue
                    if len(ov) == 1 and ov[0] <= off and ov[0] + d[ov[0]][0] >= off + n:
                        m, v = d[ov[0]]
                        return extract(v, 8 * (off - ov[0]) + 8 * n - 1, 8 * (off - ov[0]), 8 * m)
                    if n == 1:
                        raise Unsupported('byte cell')
                    return concat([bv(self.read(idx, off + i, 1, False, k + 1), 8) for i in range(n)])
                # symbolic offset over concrete cells
                if n > 1 and any(m != n for m, _ in d.values()):
                    if not (self.reg.kind == 'obj' and all(m == n or True for m, _ in d.values())):
                        pass
                    rest = None
                    return concat([bv(self.read(idx, add(off, i), 1, False, k + 1), 8) for i in range(n)])
                r = self.read(idx, off, n, isptr, k)
                for o, (m, v) in d.items():
                    if m == n:
                        r = ITE(EQ(off, o), v, r, 8 * n)
                    else:  # n == 1, wider cell
                        for j in range(m):
                            r = ITE(EQ(off, o + j), extract(v, 8 * j + 7, 8 * j, 8 * m), r, 8)
                return r
            if t == 'sym':
                _, widx, woff, m, v = e
                if idx is not None:
                    if isc(woff) and isc(off):
                        if woff + m <= off or off + n <= woff:
                            continue
                        if woff == off and m == n:
                            c = EQ(idx, widx)
                            if c is True:
                                return v
                            if c is False:
                                continue
                            return ITE(c, v, self.read(idx, off, n, isptr, k), 8 * n)
                        if woff <= off and off + n <= woff + m:
                            c = EQ(idx, widx)
                            x = extract(v, 8 * (off - woff) + 8 * n - 1, 8 * (off - woff), 8 * m)
                            if c is True:
                                return x
                            if c is False:
                                continue
                            return ITE(c, x, self.read(idx, off, n, isptr, k), 8 * n)
                        return concat([bv(self.read(idx, off + i, 1, False, k + 1), 8) for i in range(n)])
                    raise Unsupported('symbolic inner offset in family')
                d = sub(off, woff)
                if isc(d):
                    sd = d - (1 << 64) if d >> 63 else d
                    if sd >= m or sd + n <= 0:
                        continue
                    if sd == 0 and n == m:
                        return v
                    if sd >= 0 and sd + n <= m:
                        return extract(v, 8 * sd + 8 * n - 1, 8 * sd, 8 * m)
                    if n == 1:
                        raise Unsupported('x')
                    return concat([bv(self.read(idx, add(off, i), 1, False, k + 1), 8) for i in range(n)])
                if n == m and (n == 1 or self.reg.elem == n):
                    return ITE(EQ(off, woff), v, self.read(idx, off, n, isptr, k), 8 * n)
                if n == 1:
                    r = self.read(idx, off, 1, False, k)
                    for j in range(m):
                        r = ITE(EQ(off, add(woff, j)), extract(v, 8 * j + 7, 8 * j, 8 * m), r, 8)
                    return r
                return concat([bv(self.read(idx, add(off, i), 1, False, k + 1), 8) for i in range(n)])
            if t in ('copy', 'fill', 'hrange'):
                woff, cnt = e[1], e[2]
                if n > 1 and t == 'copy':
                    # whole access inside the copied range?
                    d = sub(off, woff)
                    if isc(d) and isc(cnt):
                        if d + n <= cnt and d < cnt:
                            if e[3].reg.kind == 'fam':
                                raise Unsupported('copy from family')
                            return e[3].read(None, add(e[4], d), n, isptr)
                        sd = d - (1 << 64) if d >> 63 else d
                        if sd + n <= 0 or sd >= cnt:
                            continue
                if n > 1:
                    d = sub(off, woff)
                    if isc(d) and isc(cnt):
                        sd = d - (1 << 64) if d >> 63 else d
                        if sd + n <= 0 or sd >= cnt:
                            continue
                    if self.reg.elem == n or t == 'fill' or True:
                        return concat([bv(self.read(idx, add(off, i), 1, False, k + 1), 8) for i in range(n)])
                d = sub(off, woff)
                inside = simp(ULT(d, cnt)) if not (isc(d) and isc(cnt)) else d < cnt
                if inside is False:
                    continue
                if t == 'copy':
                    v = e[3].read(None, add(e[4], d), 1, False)
                elif t == 'fill':
                    v = e[3]
                else:
                    v = z3.Select(e[3], bv(off, 64))
                if inside is True:
                    return v
                return ITE(inside, v, self.read(idx, off, n, isptr, k), 8)
            if t == 'ecopy':
                _, di, cnt, src, si = e
                d = simp(bv(idx, 64) - bv(di, 64))
                inside = simp(ULT(bv(d, 64), bv(cnt, 64)))
                if inside is False:
                    continue
                v = src.read(simp(bv(d, 64) + bv(si, 64)), off, n, isptr)
                if inside is True:
                    return v
                return ITE(inside, v, self.read(idx, off, n, isptr, k), 8 * n)
            if t == 'havoc':
                return e[1](idx, off, n, isptr)
        return self.reg.init(idx, off, n, isptr)

class State:
    __slots__ = ('mem', 'pc', 'ghost', 'trace', 'abstract', 'dead', 'depth', 'visits')
    def __init__(self):
        self.mem = {}
        self.pc = ()
        self.ghost = {}
        self.trace = ()
        self.abstract = False
        self.dead = frozenset()
        self.visits = {}
    def clone(self):
        s = State()
        s.mem = dict(self.mem)
        s.pc = self.pc
        s.ghost = dict(self.ghost)
        s.trace = self.trace
        s.abstract = self.abstract
        s.dead = self.dead
        return s
    def assume(self, c):
        c = simp(c) if not isinstance(c, bool) else c
        if c is True:
            return self
        self.pc = self.pc + (boolv(c),)
        return self
    def m(self, reg):
        r = self.mem.get(reg.id)
        if r is None:
            r = Mem(reg)
        return r
