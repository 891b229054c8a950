"""Assumed contracts for std::string, std::regex at method level.

The abstract value of a string object is a view (src, beg, len): characters beg..beg+len-1 of an
immutable character source.  A source is ('c', pointer) for the C string at a pointer or a token."""
import re
import z3
from .sym import *
from .exec import Abort
from . import lib

class Str:
    __slots__ = ('src', 'beg', 'len')
    def __init__(self, src, beg=0, len=None):
        self.src = src; self.beg = beg; self.len = len
    def __repr__(self):
        return 'Str(%s,%s,%s)' % (self.src, self.beg, self.len)
    def key(self):
        s = self.src
        return s

def src_eq(a, b):
    if a[0] != b[0]:
        return False
    if a[0] == 'c':
        return ptr_eq(a[1], b[1])
    return a == b

def str_eq(a, b):
    """same view of the same source"""
    if a is None or b is None:
        return False
    if a.src[0] == 'lit' and b.src[0] == 'lit':
        return a.src[1] == b.src[1]
    if a.len is None or b.len is None:
        return AND(src_eq(a.src, b.src), EQ(a.beg, b.beg), a.len is b.len)
    return AND(src_eq(a.src, b.src), EQ(a.beg, b.beg), EQ(a.len, b.len))

def K(kind, p):
    return (kind, p.reg.id, str(p.off), None if p.idx is None else str(p.idx))

def P(ex, st, p):
    return p if isinstance(p, Ptr) else ex.toptr(st, p)

def getstr(ex, st, p):
    p = P(ex, st, p)
    v = st.ghost.get(K('str', p))
    if v is None:
        f = getattr(p.reg, 'strval', None)     # abstract value of a string living inside an object of a family
        if f is not None:
            v = f(ex, st, p)
    if v is None:
        raise Unsupported('string object %s has no abstract value' % p)
    return v

def setstr(st, p, v):
    st.ghost[K('str', p)] = v

def cstr(ex, st, p):
    p = P(ex, st, p)
    b = lib.cstr_of(ex, st, p)
    if b is not None:
        return Str(('lit', b), 0, len(b))
    f = getattr(p.reg, 'strlen', None)
    n = None
    if f is not None:
        n = f(ex, st, p) if callable(f) else simp(sub(f, p.off))
    return Str(('c', p), 0, n)

def slen(ex, st, s):
    if s.len is not None:
        return s.len
    f = z3.Function('cstrlen', z3.BitVecSort(64), z3.BitVecSort(64))
    return f(bv(s.src[1].addr(), 64))

def char_at(ex, st, s, i):
    """the character at index i (i == len gives the terminator)"""
    if s.src[0] == 'lit':
        b = s.src[1] + b'\0'
        if isc(i):
            return b[i] if i < len(b) else 0
    raise Unsupported('character of ' + repr(s))

SS = r'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> >'
STRFIND = z3.Function('str_find', z3.BitVecSort(64), z3.BitVecSort(8), z3.BitVecSort(64), z3.BitVecSort(64))
NPOS = MASK[64]

def install(v, find_id=None):
    """method-level contracts of std::string for the V object v"""
    E = re.escape(SS)
    def m(suffix):
        def d(f):
            v.model('^' + E + suffix, f)
            return f
        return d
    @m(r'::basic_string\(\)$')
    def _def(ex, st, a, c):
        setstr(st, P(ex, st, a[0]), Str(('lit', b''), 0, 0))
    @m(r'::basic_string(<[^(]*>)?\(char const\*, std::allocator<char> const&\)$')
    def _cs(ex, st, a, c):
        p = P(ex, st, a[1])
        if is_null(p) is True:
            ex.oblige(st, 'no string from a null pointer', False, 'safety')
            raise Abort('null string')
        setstr(st, P(ex, st, a[0]), cstr(ex, st, p))
    @m(r'::basic_string\(' + E + r'( const)?&&?\)$')
    def _cp(ex, st, a, c):
        s = getstr(ex, st, a[1])
        setstr(st, P(ex, st, a[0]), s)
        if '&&)' in ir_d(c.name):
            setstr(st, P(ex, st, a[1]), Str(('lit', b''), 0, 0))
    @m(r'::operator=\(char const\*\)$|' + '^' + E + r'::assign\(char const\*\)$')
    def _asg(ex, st, a, c):
        setstr(st, P(ex, st, a[0]), cstr(ex, st, P(ex, st, a[1])))
        return a[0]
    @m(r'::(operator=|assign)\(' + E + r'( const)?&&?\)$')
    def _asg2(ex, st, a, c):
        s = getstr(ex, st, a[1])
        setstr(st, P(ex, st, a[0]), s)
        return a[0]
    @m(r'::~basic_string\(\)$')
    def _d(ex, st, a, c):
        st.ghost.pop(K('str', P(ex, st, a[0])), None)
    @m(r'::(empty)\(\) const$')
    def _e(ex, st, a, c):
        return EQ(slen(ex, st, getstr(ex, st, a[0])), 0)
    @m(r'::(size|length)\(\) const$')
    def _s(ex, st, a, c):
        return slen(ex, st, getstr(ex, st, a[0]))
    @m(r'::clear\(\)$')
    def _cl(ex, st, a, c):
        setstr(st, P(ex, st, a[0]), Str(('lit', b''), 0, 0))
    @m(r'::(operator\[\]|at)\(unsigned long\)( const)?$')
    def _ix(ex, st, a, c):
        s = getstr(ex, st, a[0])
        n = slen(ex, st, s)
        ex.oblige(st, 'string index within the string', ULE(a[1], n), 'safety')
        r = getattr(ex, 'strchars', None)
        if r is not None and s.src in r:
            return Ptr(r[s.src], add(s.beg, a[1]))
        raise Unsupported('character of ' + repr(s))
    @m(r'::(c_str|data)\(\)( const)?$')
    def _c(ex, st, a, c):
        s = getstr(ex, st, a[0])
        r = getattr(ex, 'strchars', None)
        if r is not None and s.src in r:
            return Ptr(r[s.src], s.beg)
        if s.src[0] == 'c' and isc(s.beg) and s.beg == 0:
            return s.src[1]
        raise Unsupported('c_str of ' + repr(s))
    @m(r'::find\(char, unsigned long\) const$')
    def _f(ex, st, a, c):
        s = getstr(ex, st, a[0])
        return find(ex, st, s, a[1], a[2])
    @m(r'::substr\(unsigned long, unsigned long\) const$')
    def _sub(ex, st, a, c):
        # (sret, this, pos, n)
        s = getstr(ex, st, a[1])
        setstr(st, P(ex, st, a[0]), substr(ex, st, s, a[2], a[3]))
    v.model(r'^std::(__new_)?allocator<char>::~?(__new_)?allocator\(', lambda ex, st, a, c: None)
    v.model(r'^std::__new_allocator<char>::~?__new_allocator\(', lambda ex, st, a, c: None)

def ir_d(n):
    from . import ir
    return ir.demangle(n[1:])

def find(ex, st, s, ch, pos):
    """s.find(ch, pos): npos or the first index >= pos holding ch"""
    ids = getattr(ex, 'strids', {})
    if s.src not in ids or not (isc(s.beg) and s.beg == 0):
        raise Unsupported('find in ' + repr(s))
    r = STRFIND(bv(ids[s.src], 64), bv(ch, 8), bv(pos, 64))
    st.assume(z3.Or(r == NPOS, z3.And(z3.UGE(r, bv(pos, 64)), z3.ULT(r, bv(s.len, 64)))))
    reg = getattr(ex, 'strchars', {}).get(s.src)
    if reg is not None:
        # definition of find, unfolded at the first position
        c0 = bv(st.m(reg).read(None, 0, 1), 8)
        z = [z3.BitVecVal(k, 64) for k in (0, 1)]
        F = lambda q: STRFIND(bv(ids[s.src], 64), bv(ch, 8), q)
        st.assume(F(z[0]) == z3.If(bv(s.len, 64) == 0, z3.BitVecVal(NPOS, 64), z3.If(c0 == bv(ch, 8), z[0], F(z[1]))))
        st.assume(z3.Implies(z3.ULE(bv(s.len, 64), 1), F(z[1]) == NPOS))
        x = st.m(reg).read(None, r, 1)
        st.assume(z3.Implies(r != NPOS, bv(x, 8) == bv(ch, 8)))
    return r

def substr(ex, st, s, pos, n):
    ln = slen(ex, st, s)
    ex.oblige(st, 'substr position within the string', ULE(pos, ln), 'safety')
    rest = sub(ln, pos)
    return Str(s.src, add(s.beg, pos), simp(ITE(ULT(n, rest), n, rest, 64)))
