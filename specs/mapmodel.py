"""Assumed contracts of std::map<std::string, T*>, at method level.

Nodes are an object family: node 1..N in order, N+1 is the end.  The first matching decision about a
key (found / not found) is remembered until the lock that guards the map is released."""
import re
import z3
from hv.sym import *
from hv import cxx, lib
from hv.exec import Abort

Z64 = lambda x: x if isc(x) else (z3.ZeroExt(64 - x.size(), x) if x.size() < 64 else x)

class StdMap:
    VAL = 64
    def __init__(self, v, p, name, valreg, valtype, lock=None, nonnull=True):
        self.v, self.p, self.name, self.valreg, self.lock = v, p, name, valreg, lock
        ex = v.ex
        self.nodes = ex.region(name + '.node', 72, 'fam', nullable=False)
        self.nodes.famtype[(self.VAL, 8)] = lambda x: Ptr(valreg, 0, x)
        self.N = v.sym(name + '.size', 64)
        v.assume(z3.ULE(self.N, 1 << 20))
        self.key = ('map', name)
        v.st.ghost[self.key] = ()                 # operations performed
        v.st.ghost[('mapdec', name)] = ()         # what is known about keys
        if nonnull:
            def on_load(ex, st, q, n, i):
                if q.reg is self.nodes and q.off == self.VAL and n == 8:
                    st.assume(NOT(is_null(self.val(st, q.idx))))
            ex.on_load.append(on_load)
        T = r'std::map<std::__cxx11::basic_string<char.*, ' + re.escape(valtype) + r'\*, .*>::'
        M = lambda rx, f: v.model('^' + T + rx, f)
        IT = r'^std::_Rb_tree(_const)?_iterator<std::pair<.* const, ' + re.escape(valtype) + r'\*> >::'
        M(r'begin\(\)( const)?$', lambda ex, st, a, c: self.guard(st, 'begin') or self.node(1))
        M(r'end\(\)( const)?$', lambda ex, st, a, c: self.guard(st, 'end') or self.node(self.end(st)))
        M(r'c(begin)\(\)( const)?$', lambda ex, st, a, c: self.guard(st, 'begin') or self.node(1))
        M(r'c(end)\(\)( const)?$', lambda ex, st, a, c: self.guard(st, 'end') or self.node(self.end(st)))
        M(r'size\(\) const$', lambda ex, st, a, c: self.guard(st, 'size') or self.size(st))
        M(r'empty\(\) const$', lambda ex, st, a, c: self.guard(st, 'empty') or EQ(self.size(st), 0))
        M(r'(find|lower_bound)\(.*\)( const)?$', self.find)
        M(r'count\(.*\)( const)?$', self.count)
        M(r'insert\((std::pair<.*&&|std::pair<.* const&)\)$', self.insert)
        M(r'erase\(std::__cxx11.*\)$', self.erase)
        M(r'erase\(std::_Rb_tree.*\)$', self.erase_it)
        def inc(ex, st, a, c):
            q = ex.peek(st, a[0], 8, True)
            self.guard(st, 'iteration')
            ex.oblige(st, 'an iterator is not moved past the end', AND(q.reg is self.nodes, ULE(bv(q.idx, 64), self.N)), 'safety')
            ex.poke(st, a[0], 8, self.node(simp(bv(q.idx, 64) + 1)))
            return a[0] if c.ty and c.ty[0] == 'ptr' else None
        v.model(IT + r'operator\+\+\(\)$', inc)
        if lock is not None:
            def on_unlock(ex, st, q):
                if ptr_eq(q, lock) is True:
                    st.ghost[('mapdec', name)] = ()
            ex.on_unlock = getattr(ex, 'on_unlock', []) + [on_unlock]
    def locked(self, st):
        return any(k[1] == self.lock.reg.id and k[3] == str(self.lock.off) for k in lib.held(st))
    def guard(self, st, what):
        if self.lock is not None:
            self.v.ex.oblige(st, 'the %s map is accessed under its lock' % self.name, self.locked(st), 'lock')
        return None
    def size(self, st):
        return self.N
    def end(self, st):
        return simp(self.N + 1)
    def node(self, i):
        return Ptr(self.nodes, 0, bv(i, 64))
    def val(self, st, i):
        return st.m(self.nodes).read(bv(i, 64), self.VAL, 8, True)
    def inmap(self, i):
        return AND(z3.UGE(bv(i, 64), 1), ULE(bv(i, 64), self.N))
    def log(self, st, *x):
        st.ghost[self.key] = st.ghost.get(self.key, ()) + (x,)
    def ops(self, st):
        return st.ghost.get(self.key, ())
    def lookup(self, st, key):
        """-> [(state, node index or None)]"""
        ex = self.v.ex
        for k, n in st.ghost.get(('mapdec', self.name), ()):
            if cxx.str_eq(k, key) is True:
                return [(st, n)]
        s2 = st.clone()
        n = ex.fresh(self.name + '.found', 64)
        st.assume(self.inmap(n))
        st.ghost[('mapdec', self.name)] = st.ghost.get(('mapdec', self.name), ()) + ((key, n),)
        s2.ghost[('mapdec', self.name)] = s2.ghost.get(('mapdec', self.name), ()) + ((key, None),)
        return [(st, n), (s2, None)]
    def find(self, ex, st, a, c):
        self.guard(st, 'lookup')
        key = cxx.getstr(ex, st, a[1])
        out = []
        for s, n in self.lookup(st, key):
            self.log(s, 'find', key, n)
            out.append((s, self.node(n if n is not None else self.end(s))))
        return out
    def count(self, ex, st, a, c):
        self.guard(st, 'lookup')
        key = cxx.getstr(ex, st, a[1])
        return [(s, 0 if n is None else 1) for s, n in self.lookup(st, key)]
    def insert(self, ex, st, a, c):
        self.guard(st, 'insertion')
        q = a[1] if isinstance(a[1], Ptr) else ex.toptr(st, a[1])
        key = cxx.getstr(ex, st, q)
        val = ex.peek(st, q.plus(32), 8, True)
        out = []
        for s, n in self.lookup(st, key):
            new = n is None
            if new:
                n = ex.fresh(self.name + '.new', 64)
                s.assume(z3.UGT(n, self.N + 1)); s.assume(z3.ULT(n, 1 << 32))
                s.mem[self.nodes.id] = s.m(self.nodes).write(n, self.VAL, 8, val)
                s.ghost[('mapdec', self.name)] = tuple(x for x in s.ghost.get(('mapdec', self.name), ()) if cxx.str_eq(x[0], key) is not True) + ((key, n),)
            self.log(s, 'insert', key, val, new, n, self.val(s, n))
            out.append((s, [self.node(n), 1 if new else 0]))
        return out
    def erase(self, ex, st, a, c):
        self.guard(st, 'removal')
        self.log(st, 'erase', cxx.getstr(ex, st, a[1]))
        return 1
    def erase_it(self, ex, st, a, c):
        self.guard(st, 'removal')
        q = a[1] if isinstance(a[1], Ptr) else ex.toptr(st, a[1])
        self.log(st, 'erase_it', q.idx)
        return self.node(simp(bv(q.idx, 64) + 1))
