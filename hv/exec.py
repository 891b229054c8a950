"""Contract-based symbolic executor over LLVM IR.

A function is verified by executing its body from a state that satisfies its precondition and
proving every obligation on every path.  A call is replaced by the callee's contract when one is
registered; other functions of /repo are executed in place (so extracting a helper changes nothing).
A loop is either unrolled completely (an obligation shows that no further iteration is possible)
or cut by an invariant (established, preserved, then assumed)."""
import re, time
import z3
from .sym import *
from . import ir
from .prove import Prover

import os
DEBUG_LOOPS = bool(os.environ.get('HV_LOOPS'))

class Abort(Exception):
    pass

class Budget(Exception):
    pass

class Obl:
    __slots__ = ('name', 'kind', 'where', 'status', 'backend', 'model', 'abstract', 'st', 'cond')
    def __init__(self, name, kind, where):
        self.name = name; self.kind = kind; self.where = where; self.status = None; self.backend = None; self.model = None; self.abstract = False
        self.st = None; self.cond = None

class LoopSpec:
    """How to treat a loop.  match(fn, header) selects it.
       exprs(ex, st, w)      pool of expressions for candidate bounds
       cands(ex, st, lv)     extra candidate invariants [(name, cond)] ; lv = LoopVals
       inv(ex, st, lv)       required invariants [(name, cond)]
       ghost                 ghost keys that the loop may change (havoc'ed)
       iter_begin / iter_end hooks on the arbitrary iteration"""
    def __init__(self, mode='inv', max=80, inv=None, cands=None, exprs=None, ghost=(), havoc=None, variant=None, begin=None, end=None, keep=None, phi=None, auto=True, concrete=False):
        self.auto = auto; self.concrete = concrete
        self.mode = mode; self.max = max; self.inv = inv; self.cands = cands; self.exprs = exprs; self.ghost = ghost
        self.havoc = havoc; self.variant = variant; self.begin = begin; self.end = end; self.keep = keep; self.phi = phi

class LV:
    """view of the loop variables in a given state"""
    def __init__(self, init, cur, tys):
        self.init = init; self.cur = cur; self.tys = tys
    def ptrs(self, reg):
        return [(k, v) for k, v in self.cur.items() if isinstance(v, Ptr) and v.reg is reg]
    def ints(self, w=None):
        return [(k, self.cur[k]) for k in self.cur if k[0] != 'ghost' and not isinstance(self.cur[k], Ptr) and (w is None or self.tys[k] == w)]

class Ex:
    def __init__(self, modules, prover=None):
        self.modules = modules if isinstance(modules, list) else [modules]
        self.fn = {}
        for m in self.modules:
            for n, f in m.funcs.items():
                if n not in self.fn or 'available_externally' in self.fn[n].header:
                    self.fn[n] = f
        self.prover = prover or Prover()
        self.models = []          # (regex, callable)
        self._mcache = {}
        self.globals = {}
        self.obls = []
        self.undecided = []
        self.quiet = 0
        self.loops = []           # (callable(fn, header)->bool, LoopSpec)
        self.default_unroll = 70
        self.max_paths = 4000
        self.npaths = 0
        self.deadline = None
        self.inputs = []          # (name, expr)
        self.on_load = []
        self.on_store = []
        self.on_asm = []
        self.on_call = []
        self.ended = []           # (kind, state): paths that ended in abort/unreachable
        self.visited = set()      # functions of /repo executed in place
        self.used_contracts = set()
        self.used_models = set()
        self.nfresh = 0
        self.stack = []
        self.overflow_checks = True
        self.cur_line = None
        self.cur = None
        self.safety = True
        self.unwound = []
        self.bounded_unroll = None   # when set: loops with invariants are unrolled this many times (stand-in)
        self.assert_assume = True
        self.inlined_loops = set()
        self.const_globals = []      # mutable globals that nothing writes (assumed, stated by the property file)

    # ---------------------------------------------------------------- symbols
    def fresh(self, name, w=64):
        self.nfresh += 1
        if w == 'bool':
            return z3.Bool('%s!%d' % (name, self.nfresh))
        return z3.BitVec('%s!%d' % (name, self.nfresh), w)
    def sym(self, name, w=64):
        """a named input: appears in the witness"""
        v = z3.Bool(name + '$') if w == 'bool' else z3.BitVec(name + '$', w)
        self.inputs.append((name, v))
        return v
    def feasible(self, st, cond=None):
        return self.prover.feasible(st.pc, cond)
    def where(self, ins=None):
        ins = ins or self.cur
        f = self.stack[-1] if self.stack else None
        fn = ir.demangle(f.name[1:]) if f else '?'
        loc = f.module.srcloc(ins.line) if f and ins is not None and ins.line else '?'
        return '%s (%s)' % (fn.split('(')[0], loc)
    # ---------------------------------------------------------------- obligations
    def oblige(self, st, name, cond, kind='post', where=None, assume=None):
        if self.quiet:
            if kind == 'safety' and not isinstance(cond, bool):
                st.assume(cond)
            return
        o = Obl(name, kind, where or self.where())
        o.abstract = st.abstract
        r, x = self.prover.prove(st.pc, cond)
        o.status = r
        if r == 'proved':
            o.backend = x
        else:
            if r == 'failed':
                o.model = x
            o.st = st
            o.cond = cond
        self.obls.append(o)
        if kind == 'safety' and r != 'proved':
            st.assume(cond)
        elif assume:
            st.assume(cond)
        return r == 'proved'
    def undecide(self, st, why):
        if self.quiet:
            return
        self.undecided.append((why, self.where() if self.stack else '?'))
    # ---------------------------------------------------------------- memory
    def check_access(self, st, p, n, what):
        r = p.reg
        if r.kind == 'null':
            self.oblige(st, 'no null dereference (%s)' % what, False, 'safety')
            raise Abort('null')
        if r.kind == 'raw':
            q = self.resolve_raw(st, p)
            if q is None:
                raise Unsupported('%s through unresolved pointer %s' % (what, str(p.off)[:80]))
            return self.check_access(st, q, n, what)
        if r.kind == 'fn':
            raise Unsupported('%s of function memory' % what)
        if r.id in st.dead:
            self.oblige(st, 'no access to freed memory %s (%s)' % (r.name, what), False, 'safety')
            raise Abort('dead')
        if r.kind == 'aos':
            p = aos_norm(p)
            if not isc(p.off) or p.off + n > r.stride:
                raise Unsupported('access across elements of ' + r.name)
            if r.check and self.safety:
                self.oblige(st, '%s stays inside the elements of %s' % (what, r.name), ULT(bv(p.idx, 64), bv(r.count, 64)), 'safety')
            return p
        if r.kind == 'fam' and r.nullable:
            c = NOT(is_null(p))
            if c is not True:
                self.oblige(st, 'no null dereference (%s)' % what, c, 'safety')
        if r.check and r.size is not None and self.safety:
            if isc(p.off) and isc(r.size):
                c = p.off + n <= r.size
            else:
                off = bv(p.off, 64)
                c = AND(ULE(off, sub(r.size, n)), ULE(n, r.size))
            if c is not True:
                self.oblige(st, '%s of %d byte(s) stays inside %s' % (what, n, r.name), c, 'safety')
                if c is False:
                    raise Abort('oob')
        if r.ro and what == 'write':
            self.oblige(st, 'no write to read-only %s' % r.name, False, 'safety')
        return p
    def resolve_raw(self, st, p):
        """pointer given as a plain address: find the region whose base occurs in it"""
        a = simp(p.off)
        if isc(a):
            return NULL if a == 0 else None
        for r in list(self.known_regions.values()):
            if r._base is None or r.id in st.dead:
                continue
            d = simp(a - r.base)
            if isc(d) or not occurs(r.base, d):
                return Ptr(r, d)
        return None
    known_regions = None
    probe = True
    def reg(self, r):
        if self.known_regions is None:
            self.known_regions = {}
        self.known_regions[r.id] = r
        return r
    def region(self, *a, **k):
        return self.reg(Region(*a, **k))
    def load(self, st, p, n, isptr=False, what='read', volatile=False):
        p = self.check_access(st, p, n, what)
        v = st.m(p.reg).read(p.idx, p.off, n, isptr)
        if isptr and not isinstance(v, Ptr):
            v = self.toptr(st, v)
        elif not isptr and isinstance(v, Ptr):
            v = v.addr()
        return v
    def toptr(self, st, v):
        if isc(v):
            if v == 0:
                return NULL
            for r in self.known_regions.values():
                pass
            return Ptr(RAW, v)
        p = Ptr(RAW, v)
        q = self.resolve_raw(st, p)
        return q if q is not None else p
    def store(self, st, p, n, v, what='write'):
        p = self.check_access(st, p, n, what)
        st.mem[p.reg.id] = st.m(p.reg).write(p.idx, p.off, n, v)
        self.reg(p.reg)
    def peek(self, st, p, n, isptr=False):
        """read without obligations (specification use)"""
        if p.reg.kind == 'aos':
            p = aos_norm(p)
        v = st.m(p.reg).read(p.idx, p.off, n, isptr)
        if isptr and not isinstance(v, Ptr):
            v = self.toptr(st, v)
        elif not isptr and isinstance(v, Ptr):
            v = v.addr()
        return v
    def poke(self, st, p, n, v):
        if p.reg.kind == 'aos':
            p = aos_norm(p)
        st.mem[p.reg.id] = st.m(p.reg).write(p.idx, p.off, n, v)
        self.reg(p.reg)
    # ---------------------------------------------------------------- globals
    def gptr(self, mod, name):
        name = mod.aliases.get(name, name)
        if name in self.fn or name not in mod.globals:
            if name in self.fn:
                return fnptr(name)
            for m in self.modules:
                if name in m.globals:
                    if 'external' not in m.globals[name][:60]:
                        return self.gptr(m, name)
            if name not in mod.globals:
                return fnptr(name)
        if ' external ' in ' ' + mod.globals[name][:80]:
            for m in self.modules:
                if m is not mod and name in m.globals and ' external ' not in ' ' + m.globals[name][:80]:
                    return self.gptr(m, name)
        internal = 'private' in mod.globals[name][:40] or 'internal' in mod.globals[name][:40]
        key = (id(mod), name) if internal else name
        if key in self.globals:
            return Ptr(self.globals[key], 0)
        d = mod.globals[name]
        m = re.search(r'\b(global|constant)\b', d)
        p = ir.P(ir.tokenize(re.sub(r'(, ![\w.]+ !\d+)+$', '', d[m.end():])), mod)
        ty = p.type()
        size = mod.sizeof(ty)
        const = m.group(1) == 'constant' or any(rx.search(name) for rx in self.const_globals)
        r = self.region(name, size, 'obj', ro=const)
        self.globals[key] = r
        if p.peek() is not None and p.peek() != ',' and const:
            v = p.value(ty)
            cells = {}
            self._ginit(mod, cells, 0, ty, v)
            if any(c is None for c in cells.values()):
                pass
            r.cells_init = cells
            r.initf = self._ginit_read(cells, size)
        return Ptr(r, 0)
    def _ginit_read(self, cells, size):
        def f(idx, off, n, isptr):
            if isc(off):
                c = cells.get(off)
                if c is not None and c[0] == n:
                    return c[1]
                for o, (m, v) in cells.items():
                    if o <= off and off + n <= o + m:
                        if isinstance(v, Ptr):
                            return None
                        return extract(v, 8 * (off - o) + 8 * n - 1, 8 * (off - o), 8 * m)
                bs = []
                for i in range(n):
                    for o, (m, v) in cells.items():
                        if o <= off + i < o + m:
                            if isinstance(v, Ptr):
                                return None
                            bs.append(extract(v, 8 * (off + i - o) + 7, 8 * (off + i - o), 8 * m))
                            break
                    else:
                        bs.append(0)
                return concat(bs)
            # symbolic offset
            r = None
            for o, (m, v) in sorted(cells.items()):
                if m == n:
                    r = v if r is None else ITE(EQ(off, o), v, r, 8 * n)
                elif n == 1:
                    for j in range(m):
                        b = extract(v, 8 * j + 7, 8 * j, 8 * m)
                        r = b if r is None else ITE(EQ(off, o + j), b, r, 8)
            return r
        return f
    def _ginit(self, mod, cells, off, ty, v):
        k = v[0]
        ty = mod.resolve(ty) if ty[0] == 'named' else ty
        if k == 'bytes':
            for i, b in enumerate(v[1]):
                cells[off + i] = (1, b)
        elif k == 'zero':
            n = mod.sizeof(ty)
            if ty[0] in ('i', 'ptr', 'f'):
                cells[off] = (n, 0 if ty[0] != 'ptr' else NULL)
            else:
                for i in range(0, n):
                    cells[off + i] = (1, 0)
        elif k == 'agg':
            if ty[0] == 'struct':
                offs = mod.layout(ty)[2]
                for o, (et, ev) in zip(offs, v[1]):
                    self._ginit(mod, cells, off + o, et, ev)
            else:
                es = mod.sizeof(ty[2])
                for i, (et, ev) in enumerate(v[1]):
                    self._ginit(mod, cells, off + i * es, et, ev)
        elif k == 'undef':
            pass
        else:
            n = mod.sizeof(ty)
            x = self.const(mod, ty, v)
            cells[off] = (n, x)
    def const(self, mod, ty, v):
        k = v[0]
        if k == 'int':
            w = ty[1]
            return bool(v[1] & 1) if w == 1 else v[1] & MASK[w]
        if k == 'null':
            return NULL
        if k == 'glob':
            return self.gptr(mod, v[1])
        if k == 'undef':
            return self.undefv(mod, ty)
        if k == 'zero':
            return self.zerov(mod, ty)
        if k == 'fp':
            return self.fpconst(ty, v[1])
        if k == 'gep':
            base = self.const(mod, ('ptr',), v[2][0][1])
            return self.gep(None, mod, v[1], base, [(t, self.const(mod, t, x)) for t, x in v[2][1:]], ())
        if k == 'cast':
            x = self.const(mod, v[2], v[3])
            return self.cast(None, v[1], v[2], x, v[4])
        if k == 'agg':
            return [self.const(mod, t, x) for t, x in v[1]]
        if k == 'bytes':
            return list(v[1])
        if k == 'cbin':
            a = self.const(mod, v[2], v[3]); b = self.const(mod, v[2], v[4])
            return self.binop(None, v[1], a, b, v[2][1], ())
        if k == 'cicmp':
            a = self.const(mod, v[2], v[3]); b = self.const(mod, v[2], v[4])
            return self.icmp(None, v[1], a, b, v[2])
        raise Unsupported('const ' + k)
    def fpconst(self, ty, t):
        import struct
        if t.startswith('0x') and ty[1] in (32, 64):
            bits = int(t, 16)
            if ty[1] == 32:
                d = struct.unpack('<d', struct.pack('<Q', bits))[0]
                return struct.unpack('<I', struct.pack('<f', d))[0]
            return bits
        if ty[1] == 64:
            return struct.unpack('<Q', struct.pack('<d', float(t)))[0]
        if ty[1] == 32:
            return struct.unpack('<I', struct.pack('<f', float(t)))[0]
        raise Unsupported('fp const')
    def undefv(self, mod, ty):
        if ty[0] == 'named':
            ty = mod.resolve(ty)
        if ty[0] == 'struct':
            return [self.undefv(mod, t) for t in ty[1]]
        if ty[0] == 'array':
            return [self.undefv(mod, ty[2]) for _ in range(ty[1])]
        if ty[0] == 'ptr':
            return Ptr(RAW, self.fresh('undef', 64))
        w = ty[1]
        return self.fresh('undef', 'bool' if w == 1 else w)
    def zerov(self, mod, ty):
        if ty[0] == 'named':
            ty = mod.resolve(ty)
        if ty[0] == 'struct':
            return [self.zerov(mod, t) for t in ty[1]]
        if ty[0] == 'array' or ty[0] == 'vec':
            return [self.zerov(mod, ty[2]) for _ in range(ty[1])]
        if ty[0] == 'ptr':
            return NULL
        return 0
    # ---------------------------------------------------------------- operations
    def binop(self, st, op, a, b, w, flags):
        if isinstance(a, Ptr):
            a = a.addr()
        if isinstance(b, Ptr):
            b = b.addr()
        if w == 1:
            if isc(a) and isc(b):
                a, b = int(a), int(b)
                return bool({'add': a ^ b, 'sub': a ^ b, 'xor': a ^ b, 'and': a & b, 'or': a | b, 'mul': a & b}[op])
            if op == 'and':
                return AND(boolx(a), boolx(b))
            if op == 'or':
                return OR(boolx(a), boolx(b))
            if op in ('xor', 'add', 'sub'):
                if isc(a):
                    a, b = b, a
                if isc(b):
                    return NOT(a) if b else a
                return z3.Xor(boolv(a), boolv(b))
        if isc(a) and isc(b):
            a, b = int(a), int(b)
            sa = a - (1 << w) if a >> (w - 1) else a
            sb = b - (1 << w) if b >> (w - 1) else b
            M = MASK[w]
            if op in ('add', 'sub', 'mul'):
                r = {'add': a + b, 'sub': a - b, 'mul': a * b}[op]
                if st is not None and 'nsw' in flags and self.overflow_checks:
                    sr = {'add': sa + sb, 'sub': sa - sb, 'mul': sa * sb}[op]
                    if not -(1 << (w - 1)) <= sr < (1 << (w - 1)):
                        self.oblige(st, 'no signed overflow in ' + op, False, 'safety')
                return r & M
            if op == 'and':
                return a & b
            if op == 'or':
                return a | b
            if op == 'xor':
                return a ^ b
            if op in ('shl', 'lshr', 'ashr'):
                if b >= w:
                    if st is not None:
                        self.oblige(st, 'shift amount below width', False, 'safety')
                    return 0
                return {'shl': (a << b) & M, 'lshr': a >> b, 'ashr': (sa >> b) & M}[op]
            if b == 0:
                if st is not None:
                    self.oblige(st, 'no division by zero', False, 'safety')
                raise Abort('div0')
            if op == 'udiv':
                return a // b
            if op == 'urem':
                return a % b
            q = abs(sa) // abs(sb)
            q = q if (sa < 0) == (sb < 0) else -q
            if op == 'sdiv':
                return q & M
            if op == 'srem':
                return (sa - q * sb) & M
            raise Unsupported(op)
        # light algebra
        if isc(b):
            if b == 0 and op in ('add', 'sub', 'or', 'xor', 'shl', 'lshr', 'ashr'):
                return a
            if b == 1 and op in ('mul', 'udiv', 'sdiv'):
                return a
            if b == 0 and op in ('mul', 'and'):
                return 0
            if op == 'and' and b == MASK[w]:
                return a
        if isc(a):
            if a == 0 and op in ('add', 'or', 'xor'):
                return b
            if a == 0 and op in ('mul', 'and', 'shl', 'lshr', 'udiv'):
                return 0
            if a == 1 and op == 'mul':
                return b
        x, y = bv(a, w), bv(b, w)
        if st is not None and self.overflow_checks and self.safety:
            if 'nsw' in flags and op in ('add', 'sub', 'mul'):
                e = {'add': lambda: z3.And(z3.BVAddNoOverflow(x, y, True), z3.BVAddNoUnderflow(x, y)),
                     'sub': lambda: z3.And(z3.BVSubNoOverflow(x, y), z3.BVSubNoUnderflow(x, y, True)),
                     'mul': lambda: z3.And(z3.BVMulNoOverflow(x, y, True), z3.BVMulNoUnderflow(x, y))}[op]()
                self.oblige(st, 'no signed overflow in ' + op, e, 'safety')
            if op in ('shl', 'lshr', 'ashr') and not (isc(b) and b < w):
                self.oblige(st, 'shift amount below width', z3.ULT(y, w), 'safety')
            if op in ('udiv', 'urem', 'sdiv', 'srem') and not (isc(b) and b != 0):
                self.oblige(st, 'no division by zero', y != 0, 'safety')
        r = {'add': lambda: x + y, 'sub': lambda: x - y, 'mul': lambda: x * y, 'and': lambda: x & y, 'or': lambda: x | y, 'xor': lambda: x ^ y,
             'shl': lambda: x << y, 'lshr': lambda: z3.LShR(x, y), 'ashr': lambda: x >> y, 'udiv': lambda: z3.UDiv(x, y), 'urem': lambda: z3.URem(x, y),
             'sdiv': lambda: x / y, 'srem': lambda: z3.SRem(x, y)}.get(op)
        if r is None:
            raise Unsupported('fp op ' + op)
        r = r()
        if op in ('add', 'sub', 'and', 'or', 'shl', 'lshr'):
            r = simp(r)
        return r
    def icmp(self, st, pred, a, b, ty):
        if isinstance(a, Ptr) or isinstance(b, Ptr) or ty[0] == 'ptr':
            if pred in ('eq', 'ne'):
                e = ptr_eq(a, b)
                return e if pred == 'eq' else NOT(e)
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.reg is b.reg and a.idx is None:
                a, b = a.off, b.off
            else:
                a, b = (a.addr() if isinstance(a, Ptr) else a), (b.addr() if isinstance(b, Ptr) else b)
            w = 64
        else:
            w = ty[1]
        if pred == 'eq':
            return EQb(a, b, w)
        if pred == 'ne':
            return NOT(EQb(a, b, w))
        if isc(a) and isc(b):
            a, b = int(a), int(b)
            sa = a - (1 << w) if a >> (w - 1) else a
            sb = b - (1 << w) if b >> (w - 1) else b
            return {'ult': a < b, 'ule': a <= b, 'ugt': a > b, 'uge': a >= b, 'slt': sa < sb, 'sle': sa <= sb, 'sgt': sa > sb, 'sge': sa >= sb}[pred]
        x, y = bv(a, w), bv(b, w)
        r = {'ult': lambda: z3.ULT(x, y), 'ule': lambda: z3.ULE(x, y), 'ugt': lambda: z3.UGT(x, y), 'uge': lambda: z3.UGE(x, y),
             'slt': lambda: x < y, 'sle': lambda: x <= y, 'sgt': lambda: x > y, 'sge': lambda: x >= y}[pred]()
        return simp(r)
    def cast(self, st, op, sty, v, dty):
        if op == 'zext':
            return zext(v, sty[1], dty[1])
        if op == 'sext':
            return sext(v, sty[1], dty[1])
        if op == 'trunc':
            if isinstance(v, Ptr):
                v = v.addr()
            return trunc(v, dty[1])
        if op == 'ptrtoint':
            a = v.addr() if isinstance(v, Ptr) else v
            if isinstance(v, Ptr):
                self.reg(v.reg)
            return trunc(a, dty[1]) if dty[1] < 64 else a
        if op == 'inttoptr':
            if isinstance(v, Ptr):
                return v
            v = zext(v, sty[1], 64) if sty[1] < 64 else v
            return self.toptr(st, simp(v))
        if op == 'bitcast':
            return v
        f = z3.Function('fp_%s_%s_%s' % (op, sty[1], dty[1]), z3.BitVecSort(sty[1]), z3.BitVecSort(dty[1]))
        if op in ('fptrunc', 'fpext', 'fptoui', 'fptosi', 'uitofp', 'sitofp'):
            return f(bv(v, sty[1]))
        raise Unsupported('cast ' + op)
    def gep(self, st, mod, bty, base, ops, flags):
        if not isinstance(base, Ptr):
            base = self.toptr(st, base)
        t0, i0 = ops[0]
        off = self._scale(st, i0, t0[1], mod.sizeof(bty))
        ty = bty
        for t, i in ops[1:]:
            rt = mod.resolve(ty)
            if rt[0] == 'struct':
                off = add(off, mod.layout(rt)[2][i])
                ty = rt[1][i]
            elif rt[0] in ('array', 'vec'):
                off = add(off, self._scale(st, i, t[1], mod.sizeof(rt[2])))
                ty = rt[2]
            else:
                raise Unsupported('gep into ' + str(rt))
        if base.reg.kind == 'fam' and not isc(off):
            st_ = getattr(base.reg, 'stride', None)
            raise Unsupported('symbolic offset into family ' + base.reg.name)
        return base.plus(off)
    def _scale(self, st, i, w, s):
        if isc(i):
            i = int(i)
            i = i - (1 << w) if i >> (w - 1) else i
            return (i * s) & MASK[64]
        x = sext(i, w, 64)
        return simp(x * s) if s != 1 else simp(x)
    # ---------------------------------------------------------------- execution
    def val(self, env, mod, ty, v):
        if v[0] == 'reg':
            return env[v[1]]
        if v[0] == 'int':
            w = ty[1]
            return bool(v[1] & 1) if w == 1 else v[1] & MASK[w]
        return self.const(mod, ty, v)
    def call_fn(self, st, fn, args):
        """execute the body; -> [(state, ret)]"""
        fn.parse()
        if len(self.stack) > 60:
            raise Unsupported('call depth')
        if sum(1 for f in self.stack if f is fn) >= 3:
            raise Unsupported('recursion in ' + fn.name)
        self.visited.add(fn.name)
        env = {}
        for p, a in zip(fn.params, args):
            env[p] = a
        self.stack.append(fn)
        saved = getattr(self, 'cur', None)
        try:
            rets, exits, backs = self.explore(fn, [(fn.entry, 0, None, env, st, {})], None, None)
        finally:
            self.stack.pop()
            self.cur = saved
        return rets
    def loop_spec(self, fn, header):
        for match, spec in self.loops:
            if match(fn, header):
                return spec
        return None
    def tick(self):
        self.npaths += 1
        if self.npaths > self.max_paths:
            raise Budget('path budget')
        if self.deadline and time.time() > self.deadline:
            raise Budget('time budget')
    def explore(self, fn, work, body, header):
        """run until returns; when body is given stop at jumps to `header` (back edges) and out of `body` (exits)"""
        rets, exits, backs = [], [], []
        mod = fn.module
        while work:
            blk, idx, prev, env, st, visits = work.pop()
            if self.deadline and time.time() > self.deadline:
                raise Budget('time budget')
            try:
                nxt = self.run_block(fn, mod, blk, idx, prev, env, st, visits)
            except Abort as e:
                if str(e) != 'end':
                    self.ended.append((str(e), st))
                continue
            except Unsupported as e:
                self.undecide(st, str(e))
                self.ended.append(('unsupported', st))
                continue
            for item in nxt:
                if item[0] == 'ret':
                    rets.append((item[1], item[2]))
                    self.tick()
                    continue
                if item[0] == 'cont':
                    work.append(item[1])
                    continue
                _, tgt, frm, env2, st2, vis = item
                if body is not None and tgt == header:
                    backs.append((tgt, frm, env2, st2, vis))
                    continue
                if body is not None and tgt not in body:
                    exits.append((tgt, frm, env2, st2, vis))
                    continue
                if tgt in fn.loops:
                    L = fn.loops[tgt]
                    spec = self.loop_spec(fn, tgt)
                    if spec and spec.mode == 'inv' and spec.concrete and self.concrete_head(fn, mod, tgt, frm, env2, st2, vis):
                        spec = None       # the number of iterations is known here: no invariant needed
                    if frm not in L or (spec and spec.mode == 'inv' and spec.concrete and self.bounded_unroll is None):
                        # entering a loop
                        if spec and spec.mode == 'inv' and self.bounded_unroll is None:
                            try:
                                r2, e2 = self.run_loop(fn, tgt, L, frm, env2, st2, vis, spec)
                            except Abort:
                                continue
                            except Unsupported as e:
                                self.undecide(st2, 'loop: ' + str(e))
                                continue
                            rets.extend(r2)
                            for (t3, f3, env3, st3, v3) in e2:
                                if body is not None and t3 == header:
                                    backs.append((t3, f3, env3, st3, v3))
                                elif body is not None and t3 not in body:
                                    exits.append((t3, f3, env3, st3, v3))
                                else:
                                    work.append((t3, 0, f3, env3, st3, v3))
                            continue
                        vis = dict(vis)
                        vis[tgt] = 0
                    else:
                        vis = dict(vis)
                        vis[tgt] = vis.get(tgt, 0) + 1
                        lim = spec.max if spec and spec.mode == 'unroll' else self.default_unroll
                        if spec and spec.mode == 'inv' and self.bounded_unroll is not None:
                            lim = self.bounded_unroll
                        if vis[tgt] > lim:
                            if spec and spec.mode == 'inv':
                                self.unwound.append((fn.name, tgt, lim))
                                continue
                            if self.feasible(st2):
                                self.undecide(st2, 'loop at %s unrolled %d times without end' % (tgt, lim))
                                self.unwound.append((fn.name, tgt, lim))
                            continue
                work.append((tgt, 0, frm, env2, st2, vis))
        return rets, exits, backs
    def concrete_head(self, fn, mod, tgt, frm, env, st, vis):
        """does the loop test come out the same way in every run from here (no side effects in the test)?"""
        if any(i.op in ('call', 'invoke', 'store') for i in fn.blocks[tgt]):
            return False
        q, self.quiet = self.quiet, True
        try:
            self.probe = True
            return len(self.run_block(fn, mod, tgt, 0, frm, dict(env), st.clone(), dict(vis))) == 1 and self.probe
        except (Abort, Unsupported):
            return False
        finally:
            self.quiet = q
    def branch(self, st, cond):
        """-> list of (bool, state)"""
        c = simp(cond) if not isinstance(cond, bool) else cond
        if c is True or c is False:
            return [(c, st)]
        self.probe = False            # the outcome depends on the inputs
        c = boolv(c)
        t = self.feasible(st, c)
        nc = z3.Not(c)
        f = self.feasible(st, nc)
        out = []
        if t and f:
            s2 = st.clone()
            st.assume(c)
            s2.assume(nc)
            return [(True, st), (False, s2)]
        if t:
            st.assume(c)   # implied, but a useful fact
            return [(True, st)]
        if f:
            st.assume(nc)
            return [(False, st)]
        return []
    def run_block(self, fn, mod, blk, idx, prev, env, st, visits):
        ins_list = fn.blocks[blk]
        # phis
        if idx == 0:
            news = {}
            while idx < len(ins_list) and ins_list[idx].op == 'phi':
                i = ins_list[idx]
                for v, b in i.a:
                    if b == prev:
                        news[i.res] = self.val(env, mod, i.ty, v)
                        break
                else:
                    raise Unsupported('phi without edge from %s' % prev)
                idx += 1
            if news:
                env = dict(env)
                env.update(news)
            else:
                env = dict(env)
        n = len(ins_list)
        while idx < n:
            i = ins_list[idx]
            self.cur = i
            op = i.op
            if op == 'phi':       # re-entry at loop header with values already placed
                idx += 1
                continue
            if op == 'bin':
                o, a, b = i.a
                w = i.ty[1]
                A, B = self.val(env, mod, i.ty, a), self.val(env, mod, i.ty, b)
                if i.ty[0] == 'f':
                    f = z3.Function('fp_%s_%d' % (o, w), z3.BitVecSort(w), z3.BitVecSort(w), z3.BitVecSort(w))
                    env[i.res] = f(bv(A, w), bv(B, w))
                elif i.ty[0] == 'vec':
                    raise Unsupported('vector op')
                else:
                    env[i.res] = self.binop(st, o, A, B, w, i.flags)
            elif op == 'icmp':
                pr, a, b = i.a
                env[i.res] = self.icmp(st, pr, self.val(env, mod, i.ty, a), self.val(env, mod, i.ty, b), i.ty)
            elif op == 'fcmp':
                pr, a, b = i.a
                w = i.ty[1]
                f = z3.Function('fcmp_%s_%d' % (pr, w), z3.BitVecSort(w), z3.BitVecSort(w), z3.BoolSort())
                env[i.res] = f(bv(self.val(env, mod, i.ty, a), w), bv(self.val(env, mod, i.ty, b), w))
            elif op == 'cast':
                o, sty, v = i.a
                env[i.res] = self.cast(st, o, sty, self.val(env, mod, sty, v), i.ty)
            elif op == 'gep':
                base = self.val(env, mod, ('ptr',), i.a[0][1])
                env[i.res] = self.gep(st, mod, i.ty, base, [(t, self.val(env, mod, t, v)) for t, v in i.a[1:]], i.flags)
            elif op == 'load':
                p = self.val(env, mod, ('ptr',), i.a[0])
                if not isinstance(p, Ptr):
                    p = self.toptr(st, p)
                for h in self.on_load:
                    h(self, st, p, mod.sizeof(i.ty), i)
                env[i.res] = self.load_ty(st, mod, p, i.ty)
            elif op == 'store':
                v = self.val(env, mod, i.ty, i.a[0])
                p = self.val(env, mod, ('ptr',), i.a[1])
                if not isinstance(p, Ptr):
                    p = self.toptr(st, p)
                for h in self.on_store:
                    h(self, st, p, mod.sizeof(i.ty), v, i)
                self.store_ty(st, mod, p, i.ty, v)
                for h in getattr(self, 'after_store', ()):
                    h(self, st, p, mod.sizeof(i.ty), v, i)
            elif op == 'alloca':
                ct, cnt = i.a
                c = self.val(env, mod, ct, cnt)
                if not isc(c):
                    sz = simp(zext(c, ct[1], 64) * mod.sizeof(i.ty))
                    r = self.region('alloca%s' % i.res, sz, 'arr')
                else:
                    r = self.region('local%s' % i.res, mod.sizeof(i.ty) * c, 'obj')
                r.local = True
                env[i.res] = Ptr(r, 0)
            elif op == 'br':
                if len(i.a) == 1:
                    return [('jump', i.a[0], blk, env, st, visits)]
                c = self.val(env, mod, ('i', 1), i.a[0])
                if not isinstance(c, bool) and not z3.is_bool(c) and not isc(c):
                    c = (c == 1)
                out = []
                for b, s in self.branch(st, c if not isc(c) else bool(c)):
                    out.append(('jump', i.a[1] if b else i.a[2], blk, env if not out else dict(env), s, visits))
                return out
            elif op == 'switch':
                v, d, cases = i.a
                x = self.val(env, mod, i.ty, v)
                w = i.ty[1]
                if isc(x):
                    x = int(x)
                    for k, l in cases:
                        if k & MASK[w] == x:
                            return [('jump', l, blk, env, st, visits)]
                    return [('jump', d, blk, env, st, visits)]
                out = []
                rest = []
                for k, l in cases:
                    c = bv(x, w) == (k & MASK[w])
                    rest.append(z3.Not(c))
                    if self.feasible(st, c):
                        s = st.clone().assume(c)
                        out.append(('jump', l, blk, dict(env), s, visits))
                c = z3.And(*rest) if rest else z3.BoolVal(True)
                if self.feasible(st, c):
                    s = st.clone().assume(c)
                    out.append(('jump', d, blk, dict(env), s, visits))
                return out
            elif op == 'ret':
                return [('ret', st, None if i.a is None else self.val(env, mod, i.ty, i.a[0]))]
            elif op == 'select':
                c = self.val(env, mod, ('i', 1), i.a[0])
                a, b = self.val(env, mod, i.ty, i.a[1]), self.val(env, mod, i.ty, i.a[2])
                if isinstance(c, (bool, int)):
                    env[i.res] = a if c else b
                elif isinstance(a, Ptr) or isinstance(b, Ptr):
                    if same(a, b):
                        env[i.res] = a
                    else:
                        out = []
                        for bb, s in self.branch(st, c):
                            e2 = dict(env)
                            e2[i.res] = a if bb else b
                            out.append(('cont', (blk, idx + 1, prev, e2, s, visits)))
                        return out
                elif i.ty == ('i', 1):
                    env[i.res] = ITE(c, boolx(a), boolx(b))
                else:
                    env[i.res] = simp(ITE(c, a, b, i.ty[1]))
            elif op in ('call', 'invoke'):
                outs = self.do_call(fn, mod, i, env, st)
                res = []
                for s, r in outs:
                    e2 = dict(env) if len(outs) > 1 else env
                    if i.res is not None:
                        e2[i.res] = r
                    if op == 'invoke':
                        res.append(('jump', i.a['normal'], blk, e2, s, visits))
                    else:
                        res.append(('cont', (blk, idx + 1, prev, e2, s, visits)))
                if op == 'call' and len(res) == 1 and outs[0][0] is st:
                    idx += 1
                    continue
                return res
            elif op == 'extractvalue':
                v, path = i.a
                x = self.val(env, mod, i.ty, v)
                for k in path:
                    x = x[k]
                env[i.res] = x
            elif op == 'insertvalue':
                v, et, e, path = i.a
                x = self.val(env, mod, i.ty, v)
                y = self.val(env, mod, et, e)
                env[i.res] = insertv(x, path, y)
            elif op == 'atomicrmw':
                k, q, v = i.a
                p = self.val(env, mod, ('ptr',), q)
                x = self.val(env, mod, i.ty, v)
                sz = mod.sizeof(i.ty)
                for h in self.on_load:
                    h(self, st, p, sz, i)
                old = self.load(st, p, sz, False, 'atomic')
                w = i.ty[1]
                new = {'add': lambda: add(old, x, w), 'sub': lambda: sub(old, x, w), 'xchg': lambda: x,
                       'and': lambda: self.binop(None, 'and', old, x, w, ()), 'or': lambda: self.binop(None, 'or', old, x, w, ())}[k]()
                for h in self.on_store:
                    h(self, st, p, sz, new, i)
                self.store(st, p, sz, new)
                env[i.res] = old
            elif op == 'cmpxchg':
                q, c, nv = i.a
                p = self.val(env, mod, ('ptr',), q)
                sz = mod.sizeof(i.ty)
                for h in self.on_load:
                    h(self, st, p, sz, i)
                old = self.load(st, p, sz, False, 'atomic')
                C, N = self.val(env, mod, i.ty, c), self.val(env, mod, i.ty, nv)
                e = EQ(old, C)
                new = ITE(e, N, old, i.ty[1])
                self.store(st, p, sz, new)
                env[i.res] = [old, e]
            elif op == 'fence':
                for h in self.on_asm:
                    h(self, st, 'fence ' + ' '.join(i.a), i)
            elif op == 'freeze':
                env[i.res] = self.val(env, mod, i.ty, i.a[0])
            elif op == 'fneg':
                w = i.ty[1]
                env[i.res] = z3.Function('fneg_%d' % w, z3.BitVecSort(w), z3.BitVecSort(w))(bv(self.val(env, mod, i.ty, i.a[0]), w))
            elif op == 'unreachable':
                if self.feasible(st):
                    self.oblige(st, 'unreachable point is not reached', False, 'safety')
                raise Abort('unreachable')
            elif op == 'resume':
                raise Abort('end')
            else:
                raise Unsupported('instruction ' + i.text[:100])
            idx += 1
        raise Unsupported('fell off block')
    def load_ty(self, st, mod, p, ty):
        rt = mod.resolve(ty) if ty[0] == 'named' else ty
        if rt[0] == 'struct':
            offs = mod.layout(rt)[2]
            return [self.load_ty(st, mod, p.plus(o), t) for o, t in zip(offs, rt[1])]
        if rt[0] == 'array':
            s = mod.sizeof(rt[2])
            return [self.load_ty(st, mod, p.plus(k * s), rt[2]) for k in range(rt[1])]
        if rt[0] == 'vec':
            raise Unsupported('vector load')
        n = mod.sizeof(rt)
        v = self.load(st, p, n, rt[0] == 'ptr')
        if rt[0] == 'i' and rt[1] < 8 * n:
            v = trunc(v, rt[1])
        return v
    def store_ty(self, st, mod, p, ty, v):
        rt = mod.resolve(ty) if ty[0] == 'named' else ty
        if rt[0] == 'struct':
            offs = mod.layout(rt)[2]
            for k, (o, t) in enumerate(zip(offs, rt[1])):
                self.store_ty(st, mod, p.plus(o), t, v[k])
            return
        if rt[0] == 'array':
            s = mod.sizeof(rt[2])
            for k in range(rt[1]):
                self.store_ty(st, mod, p.plus(k * s), rt[2], v[k])
            return
        if rt[0] == 'vec':
            if isinstance(v, list):
                s = mod.sizeof(rt[2])
                for k in range(rt[1]):
                    self.store_ty(st, mod, p.plus(k * s), rt[2], v[k])
                return
            raise Unsupported('vector store')
        n = mod.sizeof(rt)
        if rt[0] == 'i' and rt[1] < 8 * n:
            v = zext(v, rt[1], 8 * n)
        elif isinstance(v, bool) or (not isc(v) and not isinstance(v, Ptr) and z3.is_bool(v)):
            v = bv(v, 8 * n)
            v = norm(v)
        self.store(st, p, n, v)
    # ---------------------------------------------------------------- calls
    def find_model(self, name):
        if name in self._mcache:
            return self._mcache[name]
        d = ir.demangle(name[1:]) if name.startswith('@_Z') else name[1:]
        r = None
        for rx, f in self.models:
            if rx.search(d) if not isinstance(rx, str) else rx == d:
                r = f
                break
        self._mcache[name] = r
        return r
    def do_call(self, fn, mod, i, env, st):
        callee = i.a['callee']
        args = []
        for t, v in i.a['args']:
            if t[0] == 'metadata':
                continue
            args.append(self.val(env, mod, t, v))
        if callee[0] == 'asm':
            for h in self.on_asm:
                h(self, st, callee[1], i)
            return [(st, None)]
        if callee[0] == 'reg':
            p = env[callee[1]]
            if isinstance(p, Ptr) and p.reg.kind != 'fn':
                if p.reg.kind == 'null':
                    self.oblige(st, 'no call through null', False, 'safety')
                    raise Abort('null call')
                raise Unsupported('indirect call through %s' % p)
            name = p.reg.name
        else:
            p = self.val(env, mod, ('ptr',), callee)
            name = callee[1] if callee[0] == 'glob' else p.reg.name
            name = mod.aliases.get(name, name)
        return self.invoke(st, mod, name, args, i)
    def invoke(self, st, mod, name, args, i=None):
        ret_ty = i.ty if i is not None else None
        for h in self.on_call:
            h(self, st, name, args, i)
        mdl = self.find_model(name)
        if mdl is not None:
            self.used_contracts.add(name)
            r = mdl(self, st, args, Call(name, ret_ty, i, mod, self))
            return norm_rets(st, r)
        if name.startswith('@llvm.'):
            from . import lib
            return norm_rets(st, lib.intrinsic(self, st, name, args, Call(name, ret_ty, i, mod, self)))
        if name in self.fn and not is_lib(name):
            f = self.fn[name]
            if self.cur_inline_ok(name):
                return self.call_fn(st, f, args)
        from . import lib
        f = lib.LIB.get(name[1:])
        if f is not None:
            self.used_models.add(name[1:])
            return norm_rets(st, f(self, st, args, Call(name, ret_ty, i, mod, self)))
        d = ir.demangle(name[1:])
        for rx, f in lib.LIBRX:
            if rx.search(d):
                self.used_models.add(d[:100])
                return norm_rets(st, f(self, st, args, Call(name, ret_ty, i, mod, self)))
        if name in self.fn:
            return self.call_fn(st, self.fn[name], args)
        raise Unsupported('call to %s without contract' % d)
    def cur_inline_ok(self, name):
        return True

    # ---------------------------------------------------------------- loops with invariants
    def run_loop(self, fn, header, body, frm, env, st, vis, spec):
        mod = fn.module
        where = '%s, loop at %s' % (ir.demangle(fn.name[1:]).split('(')[0], fn.module.srcloc(next((x.line for x in fn.blocks[header] if x.line), 0)))
        phis = [i for i in fn.blocks[header] if i.op == 'phi']
        def LoopVals(a, b, c):
            lv = LV(a, b, c)
            lv.entry = st
            lv.fn = fn
            lv.header = header
            return lv
        init = {}
        for i in phis:
            for v, b in i.a:
                if b == frm:
                    init[('phi', i.res)] = self.val(env, mod, i.ty, v)
        tys = {('phi', i.res): (i.ty[1] if i.ty[0] == 'i' else 64) for i in phis}
        entry_st = st
        havoc_cells = {}     # (regid, idxkey?, off, n) -> region
        havoc_arr = {}       # regid -> region
        hghost = set(spec.ghost)
        n_rounds = 0
        self_ = self
        def getvals(s, e):
            cur = {}
            for i in phis:
                cur[('phi', i.res)] = e[i.res]
            for (rid, off, n), r in havoc_cells.items():
                cur[('cell', rid, off, n)] = s.m(r).read(None, off, n, (rid, off, n) in ptr_cells)
                tys[('cell', rid, off, n)] = 8 * n
            for g in hghost:
                if not isinstance(g, tuple):
                    cur[('ghost', g)] = s.ghost.get(g)
            return cur
        ptr_cells = set()
        def mkhavoc():
            s = entry_st.clone()
            s.abstract = True
            e = dict(env)
            for i in phis:
                v0 = init[('phi', i.res)]
                if spec.phi:
                    r = spec.phi(self, s, i, v0)
                    if r is not None:
                        e[i.res] = r
                        continue
                e[i.res] = self.havoc_like(v0, i.ty, i.res)
            for (rid, off, n), r in havoc_cells.items():
                old = entry_st.m(r).read(None, off, n, False) if (rid, off, n) not in ptr_cells else entry_st.m(r).read(None, off, n, True)
                nv = self.havoc_like(old, ('i', 8 * n), '%s+%s' % (r.name, off))
                s.mem[rid] = s.m(r).write(None, off, n, nv)
            for rid, r in havoc_arr.items():
                s.mem[rid] = s.m(r).havoc(self.fresh_reader(r))
            for g in hghost:
                if isinstance(g, tuple):
                    s.ghost.pop(g, None)     # ghost of an object rewritten by the loop
                    continue
                v = s.ghost.get(g)
                if v is not None and not isinstance(v, (str, tuple, frozenset)):
                    if isinstance(v, bool) or (not isc(v) and z3.is_bool(v)):
                        s.ghost[g] = self.fresh('g_' + g, 'bool')
                    elif isinstance(v, Ptr):
                        s.ghost[g] = self.havoc_like(v, None, g)
                    else:
                        s.ghost[g] = self.fresh('g_' + g, 64 if isc(v) else v.size())
            if spec.havoc:
                spec.havoc(self, s, e)
            return s, e
        # 1. what does the body change?
        self.quiet += 1
        try:
            while True:
                n_rounds += 1
                if n_rounds > 12:
                    raise Unsupported('loop write set does not stabilise')
                s, e = mkhavoc()
                s0 = s.clone()
                if spec.inv:
                    for nm, c in spec.inv(self, s, LoopVals(init, getvals(s, e), tys)):
                        s.assume(c)
                if spec.begin:
                    spec.begin(self, s, LoopVals(init, getvals(s, e), tys))
                rets, exits, backs = self.explore(fn, [(header, len(phis), frm, dict(e), s, dict(vis))], body, header)
                changed = False
                for (_, bf, be, bs, _) in backs:
                    for rid, m in bs.mem.items():
                        m0 = s0.mem.get(rid)
                        if m0 is m or rid in havoc_arr:
                            continue
                        r = m.reg
                        if getattr(r, 'local', False) and rid not in s0.mem and not self._reaches(r, env):
                            continue
                        k0 = len(m0.layers) if m0 else 0
                        if spec.keep and spec.keep(r):
                            continue
                        cells, whole = diff_layers(m0, m)
                        if whole:
                            havoc_arr[rid] = r
                            changed = True
                            continue
                        for off, n in cells:
                            if (rid, off, n) in havoc_cells:
                                continue
                            old = (m0 or Mem(r)).read(None, off, n, False)
                            new = m.read(None, off, n, False)
                            rawnew = m.read(None, off, n, True)
                            if same(old, new):
                                continue
                            havoc_cells[(rid, off, n)] = r
                            if isinstance(rawnew, Ptr) and rawnew.reg is not RAW:
                                ptr_cells.add((rid, off, n))
                            changed = True
                    for g in set(bs.ghost) | set(s0.ghost):
                        if g in hghost:
                            continue
                        a, b = s0.ghost.get(g), bs.ghost.get(g)
                        if a is b or (isc(a) and isc(b) and a == b) or (isinstance(a, (tuple, frozenset, str, type(None))) and a == b):
                            continue
                        if hasattr(a, 'eq') and hasattr(b, 'eq') and a.eq(b):
                            continue
                        if isinstance(g, tuple):
                            hghost.add(g)
                            changed = True
                            continue
                        if isinstance(a, (tuple, frozenset, str, type(None), dict)) or isinstance(b, (tuple, frozenset, str, type(None), dict)):
                            raise Unsupported('ghost %s changes in loop: %s -> %s' % (g, a, b))
                        hghost.add(g)
                        changed = True
                if not changed:
                    break
        finally:
            self.quiet -= 1
        initv = dict(init)
        for (rid, off, n), r in havoc_cells.items():
            initv[('cell', rid, off, n)] = entry_st.m(r).read(None, off, n, (rid, off, n) in ptr_cells)
            tys[('cell', rid, off, n)] = 8 * n
        for g in hghost:
            if not isinstance(g, tuple):
                initv[('ghost', g)] = entry_st.ghost.get(g)
        # 2. candidates
        def required(s, e):
            return list(spec.inv(self, s, LoopVals(initv, getvals(s, e), tys))) if spec.inv else []
        gen = self.auto_cands(fn, body, phis, initv, tys, env, entry_st, spec) if spec.auto else []
        def cands(s, e):
            cv = getvals(s, e)
            out = {}
            for nm, f in gen:
                try:
                    out[nm] = f(cv, s)
                except Exception:
                    pass
            if spec.cands:
                for nm, c in spec.cands(self, s, LoopVals(initv, cv, tys)):
                    out[nm] = c
            return out
        ient = dict(env)
        for i in phis:
            ient[i.res] = init[('phi', i.res)]
        for nm, c in required(entry_st, ient):
            self.oblige(entry_st, 'loop invariant established: ' + nm, c, 'inv', where)
        live = {}
        for nm, c in cands(entry_st, ient).items():
            r = self.prover.prove(entry_st.pc, c, timeout=3000, retry=False)[0]
            if r == 'proved':
                live[nm] = True
        self.quiet += 1
        try:
            for _ in range(40):
                s, e = mkhavoc()
                for nm, c in required(s, e):
                    s.assume(c)
                cc = cands(s, e)
                for nm in live:
                    if nm in cc:
                        s.assume(cc[nm])
                if spec.begin:
                    spec.begin(self, s, LoopVals(initv, getvals(s, e), tys))
                rets, exits, backs = self.explore(fn, [(header, len(phis), frm, dict(e), s, dict(vis))], body, header)
                dropped = set()
                for (_, bf, be, bs, _) in backs:
                    be2 = self.back_env(fn, header, bf, be, phis)
                    bc = cands(bs, be2)
                    rem = [nm for nm in live if nm not in dropped and nm in bc]
                    # all at once first
                    if rem and self.prover.prove(bs.pc, AND(*[bc[nm] for nm in rem]), timeout=5000, retry=False)[0] == 'proved':
                        continue
                    for nm in rem:
                        if self.prover.prove(bs.pc, bc[nm], timeout=2000, retry=False)[0] != 'proved':
                            dropped.add(nm)
                if not dropped:
                    break
                for nm in dropped:
                    live.pop(nm, None)
        finally:
            self.quiet -= 1
        if DEBUG_LOOPS and not self.quiet:
            allc = cands(entry_st, ient)
            print('LOOP', where, '\n   live:', '; '.join(live), '\n   dropped:', '; '.join(n for n in allc if n not in live), flush=True)
        # 3. final pass, obligations counted
        s, e = mkhavoc()
        for nm, c in required(s, e):
            s.assume(c)
        cc = cands(s, e)
        for nm in live:
            if nm in cc:
                s.assume(cc[nm])
        lv0 = LoopVals(initv, getvals(s, e), tys)
        if spec.begin:
            spec.begin(self, s, lv0)
        var0 = spec.variant(self, s, lv0) if spec.variant else None
        rets, exits, backs = self.explore(fn, [(header, len(phis), frm, dict(e), s, dict(vis))], body, header)
        for (_, bf, be, bs, _) in backs:
            be2 = self.back_env(fn, header, bf, be, phis)
            for k, x in getvals(bs, be2).items():
                if isinstance(x, Ptr) and x.reg.kind == 'aos' and isinstance(initv.get(k), Ptr):
                    c0, c1 = aos_split(initv[k].off, x.reg.stride), aos_split(x.off, x.reg.stride)
                    if c0 is None or c1 is None or c0[1] != c1[1]:
                        raise Unsupported('loop pointer leaves the element grid of ' + x.reg.name)
            for nm, c in required(bs, be2):
                self.oblige(bs, 'loop invariant preserved: ' + nm, c, 'inv', where)
            if live:
                bc = cands(bs, be2)
                for nm in live:
                    if nm in bc:
                        self.oblige(bs, 'loop invariant preserved: ' + nm, bc[nm], 'inv', where)
            if spec.end:
                spec.end(self, bs, LoopVals(initv, getvals(bs, be2), tys), lv0)
            if spec.variant:
                self.check_variant(bs, spec, initv, getvals, be2, tys, lv0, var0, where)
        return rets, exits
    def check_variant(self, bs, spec, initv, getvals, be2, tys, lv0, var0, where):
        v1 = spec.variant(self, bs, LV(initv, getvals(bs, be2), tys))
        if isinstance(v1, list):   # alternatives: any one of them decreasing will do
            for a, b in zip(var0, v1):
                if self.prover.prove(bs.pc, ULT(b, a), timeout=3000, retry=False)[0] == 'proved':
                    self.oblige(bs, 'loop terminates: variant decreases', ULT(b, a), 'term', where)
                    return
            self.oblige(bs, 'loop terminates: variant decreases', OR(*[ULT(b, a) for a, b in zip(var0, v1)]), 'term', where)
        else:
            self.oblige(bs, 'loop terminates: variant decreases', ULT(v1, var0), 'term', where)
    def back_env(self, fn, header, bf, be, phis):
        e = dict(be)
        news = {}
        for i in phis:
            for v, b in i.a:
                if b == bf:
                    news[i.res] = self.val(be, fn.module, i.ty, v)
        e.update(news)
        return e
    def _reaches(self, r, env):
        return any(isinstance(v, Ptr) and v.reg is r for v in env.values())
    def havoc_like(self, v, ty, name):
        if isinstance(v, Ptr):
            if v.reg.kind == 'fam':
                return Ptr(v.reg, v.off, self.fresh('h_' + name, 64))
            if v.reg.kind == 'aos':
                c = aos_split(v.off, v.reg.stride)
                if c is None:
                    raise Unsupported('loop pointer into ' + v.reg.name)
                return Ptr(v.reg, simp(self.fresh('h_' + name, 64) * v.reg.stride + c[1]))
            if v.reg.kind in ('null', 'raw', 'fn'):
                return Ptr(RAW, self.fresh('h_' + name, 64))
            return Ptr(v.reg, self.fresh('h_' + name, 64))
        if isinstance(v, bool) or (not isc(v) and z3.is_bool(v)):
            return self.fresh('h_' + name, 'bool')
        if isinstance(v, list):
            raise Unsupported('aggregate loop variable')
        w = ty[1] if ty is not None and ty[0] in ('i', 'f') else (64 if isc(v) else v.size())
        return self.fresh('h_' + name, 'bool' if w == 1 else w)
    def fresh_reader(self, r):
        self.nfresh += 1
        k = self.nfresh
        if r.kind in ('fam', 'aos'):
            def rd(idx, off, n, isptr):
                f = z3.Function('hv%d_%s@%d:%d' % (k, r.name, off, n), z3.BitVecSort(64), z3.BitVecSort(8 * n))
                v = f(bv(idx, 64))
                if r.famtype and (off, n) in r.famtype:
                    return r.famtype[(off, n)](v)
                return Ptr(RAW, v) if isptr else v
            return rd
        w = (r.elem or 1) * 8
        A = z3.Array('hv%d_%s' % (k, r.name), z3.BitVecSort(64), z3.BitVecSort(w))
        def rd(idx, off, n, isptr):
            if r.elem:
                if n == r.elem:
                    v = z3.Select(A, bv(off, 64))
                    h = getattr(r, 'elemptr', None)
                    if h:
                        return h(v, off)
                    return Ptr(RAW, v) if isptr else v
                raise Unsupported('mixed-size access to havoced ' + r.name)
            v = concat([z3.Select(A, bv(add(off, j), 64)) for j in range(n)])
            return Ptr(RAW, v) if isptr else v
        return rd
    def auto_cands(self, fn, body, phis, initv, tys, env, entry_st, spec):
        """candidate invariants built from the loop's own variables: (name, f(curvals, st))"""
        out = []
        def num(v):
            return v.off if isinstance(v, Ptr) else v
        keys = [k for k in initv if k[0] != 'ghost' or True]
        ints = []
        for k in keys:
            v = initv[k]
            if v is None or isinstance(v, (list, tuple, frozenset, str)):
                continue
            if isinstance(v, bool) or (not isc(v) and not isinstance(v, Ptr) and z3.is_bool(v)):
                continue
            if isinstance(v, Ptr) and v.reg.kind in ('raw', 'null', 'fn', 'fam'):
                continue
            ints.append(k)
        def W(k):
            v = initv[k]
            if isinstance(v, Ptr):
                return 64
            return tys.get(k) or (64 if isc(v) else v.size())
        for k in ints:
            w = W(k)
            v0 = bv(num(initv[k]), w)
            out.append(('%s >= init' % (k,), lambda cv, s, k=k, v0=v0: z3.UGE(bv(num(cv[k]), v0.size()), v0)))
            out.append(('%s <= init' % (k,), lambda cv, s, k=k, v0=v0: z3.ULE(bv(num(cv[k]), v0.size()), v0)))
            out.append(('%s >=s init' % (k,), lambda cv, s, k=k, v0=v0: bv(num(cv[k]), v0.size()) >= v0))
            out.append(('%s == init' % (k,), lambda cv, s, k=k, v0=v0: bv(num(cv[k]), v0.size()) == v0))
            out.append(('%s nonneg' % (k,), lambda cv, s, k=k, w=w: bv(num(cv[k]), w) >= 0))
            # loop-invariant operands compared in the body
            for b in body:
                for i in fn.blocks[b]:
                    if i.op != 'icmp':
                        continue
                    for v in i.a[1:]:
                        x = None
                        if v[0] == 'int' and i.ty[0] == 'i':
                            x = v[1] & MASK[i.ty[1]]
                        elif v[0] == 'reg' and v[1] in env:
                            x = env[v[1]]
                            if isinstance(x, Ptr):
                                x = x.off if x.reg.kind not in ('raw', 'null', 'fn', 'fam') else None
                        if x is None or isinstance(x, bool) or (not isc(x) and z3.is_bool(x)):
                            continue
                        xw = i.ty[1] if i.ty[0] == 'i' else 64
                        if xw != w:
                            if isc(x) or xw > w:
                                continue
                            x = z3.ZeroExt(w - xw, x)
                        x = bv(x, w)
                        out.append(('%s <=u %s' % (k, str(x)[:60]), lambda cv, s, k=k, x=x: z3.ULE(bv(num(cv[k]), x.size()), x)))
                        out.append(('%s <=s %s' % (k, str(x)[:60]), lambda cv, s, k=k, x=x: bv(num(cv[k]), x.size()) <= x))
            if spec.exprs:
                def pool(s, w=w):
                    return spec.exprs(self, s, w)
                try:
                    npool = len(pool(entry_st))
                except Exception:
                    npool = 0
                for j in range(npool):
                    for opn, opf in (('<=', lambda a, b: z3.ULE(a, b)), ('==', lambda a, b: a == b), ('>=', lambda a, b: z3.UGE(a, b))):
                        out.append(('%s %s pool%d' % (k, opn, j), lambda cv, s, k=k, j=j, opf=opf, w=w: opf(bv(num(cv[k]), w), bv(pool(s, w)[j], w))))
        for x in range(len(ints)):
            for y in range(x + 1, len(ints)):
                a, b = ints[x], ints[y]
                wa, wb = W(a), W(b)
                w = min(wa, wb)
                def tr(v, w):
                    v = bv(v, 64) if isc(v) else v
                    return v if v.size() == w else z3.Extract(w - 1, 0, v)
                a0, b0 = bv(num(initv[a]), wa), bv(num(initv[b]), wb)
                def d(cv, k, v0, w):
                    dv = bv(num(cv[k]), v0.size()) - v0
                    return dv if dv.size() == w else z3.Extract(w - 1, 0, dv)
                W2 = max(wa, wb)
                def dx(cv, k, v0, w=W2):
                    dv = bv(num(cv[k]), v0.size()) - v0
                    return dv if dv.size() == w else z3.ZeroExt(w - dv.size(), dv)
                def ndx(cv, k, v0, w=W2):
                    dv = v0 - bv(num(cv[k]), v0.size())
                    return dv if dv.size() == w else z3.ZeroExt(w - dv.size(), dv)
                out.append(('%s - init == %s - init' % (a, b), lambda cv, s, a=a, b=b, a0=a0, b0=b0, dx=dx: dx(cv, a, a0) == dx(cv, b, b0)))
                out.append(('%s + %s == init sum' % (a, b), lambda cv, s, a=a, b=b, a0=a0, b0=b0, dx=dx, ndx=ndx: ndx(cv, a, a0) == dx(cv, b, b0)))
                out.append(('%s + %s == init sum (2)' % (a, b), lambda cv, s, a=a, b=b, a0=a0, b0=b0, dx=dx, ndx=ndx: dx(cv, a, a0) == ndx(cv, b, b0)))
                for m in (2, 4, 8, 16, 3):
                    out.append(('d%s == %d d%s' % (a, m, b), lambda cv, s, a=a, b=b, a0=a0, b0=b0, dx=dx, m=m: dx(cv, a, a0) == m * dx(cv, b, b0)))
                    out.append(('d%s == %d d%s' % (b, m, a), lambda cv, s, a=a, b=b, a0=a0, b0=b0, dx=dx, m=m: dx(cv, b, b0) == m * dx(cv, a, a0)))
        return out

def diff_layers(m0, m):
    """cells written since m0 ([(off,n)], False) or (None, True) when the change is not at concrete offsets"""
    L0 = m0.layers if m0 else ()
    L = m.layers
    k = 0
    while k < len(L0) and k < len(L) and L0[k] is L[k]:
        k += 1
    cells = set()
    for e in list(L0[k:]) + list(L[k:]):
        if e[0] == 'cells':
            for o, (n, v) in e[1].items():
                cells.add((o, n))
        else:
            return None, True
    return sorted(cells), False

class Call:
    __slots__ = ('name', 'ty', 'ins', 'mod', 'ex')
    def __init__(self, name, ty, ins, mod, ex):
        self.name = name; self.ty = ty; self.ins = ins; self.mod = mod; self.ex = ex

def norm_rets(st, r):
    if isinstance(r, list) and r and isinstance(r[0], tuple) and isinstance(r[0][0], State):
        return r
    if isinstance(r, list) and not r:
        return r
    return [(st, r)]

LIBNS = ('@_ZNSt', '@_ZNKSt', '@_ZSt', '@_ZNSo', '@_ZNSi', '@_ZNSs', '@_ZN3fmt', '@_ZNK3fmt', '@_ZN9__gnu_cxx', '@_ZNSa', '@__clang')
def is_lib(name):
    return name.startswith(LIBNS)

def boolx(v):
    if isinstance(v, bool):
        return v
    if isc(v):
        return bool(v)
    return boolv(v)

def EQb(a, b, w):
    if isc(a) and isc(b):
        return int(a) == int(b)
    if not isc(a) and z3.is_bool(a) or not isc(b) and z3.is_bool(b):
        if isc(a):
            a, b = b, a
        if isc(b):
            return a if b else NOT(a)
        return simp(boolv(a) == boolv(b))
    return simp(bv(a, w) == bv(b, w))

def insertv(x, path, y):
    x = list(x)
    if len(path) == 1:
        x[path[0]] = y
    else:
        x[path[0]] = insertv(x[path[0]], path[1:], y)
    return x

def occurs(c, e):
    seen = set()
    st = [e]
    while st:
        x = st.pop()
        k = x.get_id()
        if k in seen:
            continue
        seen.add(k)
        if x.eq(c):
            return True
        st.extend(x.children())
    return False
