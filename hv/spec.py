"""Specification API: what a property file uses to state and discharge contracts."""
import re, time, os, json, traceback
import z3
from . import ir
from .sym import *
from .exec import *
from . import lib

class V:
    """verification of one function against its contract"""
    def __init__(self, P, name, mods):
        self.P = P
        self.name = name
        self.mods = mods
        self.ex = Ex(mods, P.prover)
        self.ex.deadline = P.deadline_fn()
        self.st = State()
        self.st.ghost['locks'] = frozenset()
        self.exits = 0
        self.covers = []
        self.witness = {}
        self.status = None
    # ---- construction of pre-states
    def sym(self, name, w=64):
        return self.ex.sym(name, w)
    def fresh(self, name, w=64):
        return self.ex.fresh(name, w)
    def fields(self, cls):
        for m in self.mods:
            try:
                return m.fields(cls)
            except KeyError:
                continue
        raise KeyError(cls)
    def size(self, cls):
        for m in self.mods:
            try:
                return m.class_size(cls)
            except KeyError:
                continue
        raise KeyError(cls)
    def obj(self, cls, name=None, **k):
        r = self.ex.region(name or cls.split('::')[-1], self.size(cls), 'obj', **k)
        r.cls = cls
        return Ptr(r, 0)
    def buf(self, name, size, **k):
        return Ptr(self.ex.region(name, size, 'arr', **k), 0)
    def off(self, cls, f):
        o = 0
        for part in f.split('.'):
            fs = self.fields(cls)
            if part not in fs:
                raise KeyError('%s.%s' % (cls, part))
            o += fs[part][0]
            n = fs[part][1]
            if fs[part][2] is not None and '.' in f:
                cls = self._cls_of(fs[part][2]) or cls
        return o, n
    def _cls_of(self, md):
        for m in self.mods:
            n = md
            for _ in range(8):
                s = m.md(n)
                if 'DICompositeType' in s:
                    return m._qual(n)
                b = re.search(r'baseType: !(\d+)', s)
                if not b:
                    break
                n = int(b.group(1))
        return None
    def get(self, st, p, cls, f, isptr=False):
        o, n = self.off(cls, f)
        return self.ex.peek(st, p.plus(o), n, isptr)
    def set(self, st, p, cls, f, v):
        o, n = self.off(cls, f)
        self.ex.poke(st, p.plus(o), n, v)
    def fptr(self, p, cls, f):
        return p.plus(self.off(cls, f)[0])
    def assume(self, c, st=None):
        (st or self.st).assume(c)
    def model(self, rx, f):
        self.ex.models.append((re.compile(rx) if isinstance(rx, str) else rx, f))
        self.ex._mcache.clear()
    def loop(self, fnrx, spec, n=None):
        r = re.compile(fnrx)
        def match(fn, header):
            return bool(r.search(ir.demangle(fn.name[1:])))
        self.ex.loops.append((match, spec))
    def find(self, rx):
        """mangled name of the (unique) function with this demangled name"""
        c = self.cands(rx)
        if not c:
            raise MissingFunction(rx)
        return c[0]
    def cands(self, rx):
        ir.demangle_all([n[1:] for n in self.ex.fn])
        r = re.compile(rx)
        return sorted([n for n in self.ex.fn if r.search(ir.demangle(n[1:]))], key=len)
    def has(self, rx):
        return bool(self.cands(rx))
    def call(self, rx, args, st=None):
        """run the function's body from the given state; -> [(state, ret)]"""
        n = rx if rx.startswith('@') else self.find(rx)
        f = self.ex.fn[n]
        self.P.under_contract.add(ir.demangle(n[1:]))
        st = st if st is not None else self.st
        self.ex.cur = None
        if not self.P.prover.feasible(st.pc, None, 20000):
            self.P.vacuous.append('%s: precondition is unsatisfiable' % self.name)
        out = self.ex.call_fn(st, f, args)
        out = [(s, r) for s, r in out if self.ex.feasible(s)]
        self.exits += len(out)
        return out
    def ensure(self, st, name, cond, assume=False):
        if callable(cond):
            cond = cond()
        return self.ex.oblige(st, name, cond, 'post', self.name, assume)
    def lemma(self, name, cond, pc=()):
        s = State()
        for c in pc:
            s.assume(c)
        return self.ex.oblige(s, name, cond, 'lemma', self.name)
    def unchanged(self, st, st0, p, cls, except_=(), label='frame'):
        """every written cell of the object outside `except_` (field names) keeps its value"""
        skip = []
        for f in except_:
            if isinstance(f, tuple):
                skip.append(f)
                continue
            o, n = self.off(cls, f)
            skip.append((o, o + n))
        base = p.off
        m1 = st.m(p.reg)
        m0 = st0.m(p.reg)
        if m1.layers == m0.layers:
            return True
        names = {}
        if cls:
            for f, (o, n, _) in self.fields(cls).items():
                for k in range(max(n, 1)):
                    names.setdefault(o + k, f)
        if p.reg.kind == 'fam':
            return self._unch_fam(st, st0, p, cls, skip, label, names)
        cells, whole = diff_layers(m0, m1)
        if whole:
            cells = [(o, 8) for o in range(0, p.reg.size - 7, 8)]
            cells += [(o, 1) for o in range(p.reg.size // 8 * 8, p.reg.size)]
        for o, n in cells:
            ro = o - base
            if any(a <= ro and ro + n <= b for a, b in skip):
                continue
            for k in range(n):
                if any(a <= ro + k < b for a, b in skip):
                    continue
                if k and n in (4, 8) and not any(a <= ro + j < b for j in range(n) for a, b in skip):
                    continue
                if not any(a <= ro + j < b for j in range(n) for a, b in skip):
                    old, new = m0.read(None, o, n), m1.read(None, o, n)
                else:
                    old, new = m0.read(None, o + k, 1), m1.read(None, o + k, 1)
                if same(old, new):
                    continue
                self.ensure(st, '%s: %s unchanged' % (label, names.get(ro + k, '+%d' % (ro + k))), val_eq(old, new))
    def _unch_fam(self, st, st0, p, cls, skip, label, names):
        pass
    def frame_regions(self, st, st0, allowed, label='frame'):
        """no other region visible before the call was written"""
        for rid, m in st.mem.items():
            m0 = st0.mem.get(rid)
            r = m.reg
            if m is m0 or getattr(r, 'local', False) or r in allowed or rid in st.dead:
                continue
            if m0 is None and getattr(r, 'heap', False):
                continue
            if m0 is not None and m0.layers == m.layers:
                continue
            if getattr(r, 'frame_ignore', False):
                continue
            self.unchanged(st, st0, Ptr(r, 0), getattr(r, 'cls', None), label='%s: %s' % (label, r.name))
    def cover(self, name, st, cond=True):
        """vacuity guard: the situation is reachable"""
        r = self.P.prover.model(st.pc, cond) is not None
        self.P.covers.append((self.name + ': ' + name, r))
        return r
    def cover_exists(self, name, conds):
        r = any(self.P.prover.model(st.pc, c) is not None for st, c in conds)
        self.P.covers.append((self.name + ': ' + name, r))
        return r

class MissingFunction(Exception):
    pass
