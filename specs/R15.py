from hv.sym import *
from hv.spec import *
from hv import lib, cxx, ir
import re, z3, importlib
_r8 = importlib.import_module('R08')
Buf, os_models, Z64, offs = _r8.Buf, _r8.os_models, _r8.Z64, _r8.offs
UNITS = {'file': '$REPO/src/output-file.cc', 'outfile': '$VERIF/units/outfile.cc', 'ostrbuf': '$VERIF/units/ostrbuf.cc'}
TRUSTED = ['open, close, readlink, symlink, rename, fsync contracts', 'mutex and condition variable contracts', 'std::string and ostringstream method contracts', 'ostrbuf_fd: flush writes everything or marks the buffer as failed (R08)', 'ostrbuf_fd::writev writes everything or reports failure (R08)',
           'pthread_create, pthread_join', 'strtoul gives some number']
ASSUMPTIONS = ['a user does not call switch_name() and the destructor at once', 'signalled waiters wake up (fairness)', 'no two writers flush one output at a time (the engine thread)']
OF = 'hogl::output_file'
UGE = lambda a, b: ULE(b, a)
SB = cxx.SS

class File:
    """an output_file in any consistent state, with the other threads as rely"""
    def __init__(self, v, blank=False):
        self.v = v
        ex = v.ex
        self.p = v.obj(OF, 'output_file')
        self.fd0, self.size0, self.max = v.sym('fd', 32), v.sym('size', 64), v.sym('max_size', 64)
        self.idx0, self.count, self.width, self.mode = v.sym('index', 32), v.sym('max_count', 32), v.sym('width', 32), v.sym('mode', 32)
        self.pend0, self.kill0 = v.sym('pending', 'bool'), v.sym('killed', 'bool')
        b8 = lambda b: z3.If(b, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8))
        v.assume(OR(self.idx0 == 0, ULT(self.idx0, self.count)))
        v.assume(ULE(self.size0, z3.BitVecVal(1 << 62, 64)))
        if not blank:
            for f, x in (('_fd', self.fd0), ('_size', self.size0), ('_max_size', self.max), ('_name_index', self.idx0), ('_max_count', self.count), ('_index_width', self.width), ('_mode', self.mode), ('_rotate_pending', b8(self.pend0)), ('_killed', b8(self.kill0))):
                self.set(v.st, f, x)
        self.fmt = v.obj('hogl::format', 'format')
        self.vt(self.fmt, '@_ZTV6hv_fmt')
        if not blank:
            self.set(v.st, '_format', self.fmt)
        self.wm, self.rm, self.rc = (v.fptr(self.p, OF, f) for f in ('_write_mutex', '_rotate_mutex', '_rotate_cond'))
        self.st_init(v.st)
        self.o = {f: v.off(OF, f)[0] for f in ('_fd', '_size', '_rotate_pending', '_killed', '_name_index')}
    def st_init(self, st):
        st.ghost[('ev',)] = ()
        st.ghost.update(sawkill=False, sawpend=False)
    def vt(self, p, name):
        for m in self.v.mods:
            if name in m.globals and ' external ' not in m.globals[name][:80]:
                self.v.ex.poke(self.v.st, p, 8, self.v.ex.gptr(m, name).plus(16))
                return
        raise KeyError(name)
    def get(self, st, f, isptr=False):
        return self.v.get(st, self.p, OF, f, isptr)
    def set(self, st, f, x):
        self.v.set(st, self.p, OF, f, x)
    def locked(self, st, m):
        return lib.lockkey(m) in lib.held(st)
    def log(self, st, *a):
        st.ghost[('ev',)] = st.ghost[('ev',)] + (a,)
    def ev(self, st, *kinds):
        return [x for x in st.ghost[('ev',)] if not kinds or x[0] in kinds]
    def pos(self, st, x):
        return st.ghost[('ev',)].index(x)
    def b8(self, b):
        return z3.If(b, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8))
    def guards(self, helper=False, ctor=False):
        """who may touch what, and what the others do meanwhile"""
        v, ex = self.v, self.v.ex
        def on_load(ex, st, p, n, i):
            if p.reg is not self.p.reg or not isc(p.off):
                return
            if p.off == self.o['_rotate_pending'] and not self.locked(st, self.rm) and not ctor:
                ex.poke(st, p, 1, self.b8(ex.fresh('pending', 'bool')))
            if p.off == self.o['_killed'] and not ctor:
                k = EQ(ex.peek(st, p, 1), 1)
                k2 = OR(k, ex.fresh('killed', 'bool'))
                ex.poke(st, p, 1, self.b8(boolv(k2)))
                st.ghost['sawkill'] = self.locked(st, self.rm)
            if p.off == self.o['_fd'] and not ctor:
                ex.oblige(st, 'the descriptor is read under the write lock, or by the thread that changes it', OR(self.locked(st, self.wm), helper), 'lock')
        def on_store(ex, st, p, n, val, i):
            if p.reg is not self.p.reg or not isc(p.off) or ctor:
                return
            if p.off in (self.o['_fd'], self.o['_size']):
                ex.oblige(st, 'descriptor and size are changed under the write lock', self.locked(st, self.wm), 'lock')
            if p.off == self.o['_rotate_pending']:
                ex.oblige(st, 'the request flag is changed under the rotation lock', self.locked(st, self.rm), 'lock')
            if p.off == self.o['_name_index']:
                ex.oblige(st, 'the file index is changed under the rotation lock', self.locked(st, self.rm), 'lock')
            if p.off == self.o['_killed']:
                self.log(st, 'kill', val)
        ex.on_load.append(on_load)
        ex.on_store.append(on_store)
        def on_lock(ex, st, p):
            if ptr_eq(p, self.rm) is True:
                # the others may have asked for a rotation (or finished one)
                self.set(st, '_rotate_pending', self.b8(ex.fresh('pending', 'bool')))
                st.ghost['sawkill'] = False
            self.log(st, 'lock', 'w' if ptr_eq(p, self.wm) is True else 'r' if ptr_eq(p, self.rm) is True else p)
        def on_unlock(ex, st, p):
            self.log(st, 'unlock', 'w' if ptr_eq(p, self.wm) is True else 'r' if ptr_eq(p, self.rm) is True else p)
        ex.on_lock = getattr(ex, 'on_lock', []) + [on_lock]
        ex.on_unlock = getattr(ex, 'on_unlock', []) + [on_unlock]
        def on_signal(ex, st, p):
            self.log(st, 'signal', ptr_eq(p, self.rc), self.locked(st, self.rm))
        ex.on_signal = getattr(ex, 'on_signal', []) + [on_signal]
    def names(self):
        """string contents and file system calls as events"""
        v, ex = self.v, self.v.ex
        strings(v)
        for f in ('_symlink', '_name', '_name_pref', '_name_sufx'):
            cxx.setstr(v.st, v.fptr(self.p, OF, f), cxx.Str(('S', f), 0, v.sym('len' + f, 64)))
            v.assume(ULE(v.sym('len' + f, 64), 1 << 20))
    def str(self, st, f):
        return cxx.getstr(self.v.ex, st, self.v.fptr(self.p, OF, f))

def pieces(s):
    return [x for x in (s.src[1] if s.src[0] == 'cat' else (s,)) if not (isinstance(x, cxx.Str) and isc(x.len) and x.len == 0)]
def p_eq(a, b):
    if isinstance(a, tuple) or isinstance(b, tuple):
        return AND(*[EQ(x, y) for x, y in zip(a[1:], b[1:])]) if isinstance(a, tuple) and isinstance(b, tuple) else False
    return cxx.str_eq(a, b)
def s_eq(a, b):
    """same text, piece by piece"""
    x, y = pieces(a), pieces(b)
    if len(x) != len(y):
        # an unknown piece may be empty
        return False
    return AND(*[p_eq(i, j) for i, j in zip(x, y)]) if x else True
def cat(*ss):
    ps = tuple(p for s in ss for p in ((s,) if isinstance(s, tuple) else pieces(s)))
    ln = 0
    for p in ps:
        ln = None if ln is None or isinstance(p, tuple) or p.len is None else simp(bv(ln, 64) + bv(p.len, 64))
    return cxx.Str(('cat', ps), 0, ln)
LIT = lambda b: cxx.Str(('lit', b), 0, len(b))

def strings(v):
    ex = v.ex
    cxx.install(v)
    E = re.escape(SB)
    G = lambda st, p: cxx.getstr(ex, st, p)
    S = lambda st, p, x: cxx.setstr(st, cxx.P(ex, st, p), x)
    def m(rx, f):
        ex.models.insert(0, (re.compile('^(' + rx + ')'), f))
    ex._mcache.clear()
    # the text at a plain character pointer
    def text(st, p):
        p = cxx.P(ex, st, p)
        t = getattr(p.reg, 'text', None)
        if t is not None and isc(p.off) and p.off == 0:
            return t
        return cxx.cstr(ex, st, p)
    v.text = text
    def c_str(ex, st, a, c):
        s = G(st, a[0])
        r = ex.region('c_str', 64)
        r.text = s
        return Ptr(r, 0)
    m(E + r'::(c_str|data)\(\)( const)?$', c_str)
    def ctor(ex, st, a, c):
        S(st, a[0], text(st, a[1]))
    m(E + r'::basic_string(<[^(]*>)?\(char const\*, std::allocator<char> const&\)$', ctor)
    def ctorn(ex, st, a, c):
        p = cxx.P(ex, st, a[1])
        lib.range_ok(ex, st, p, a[2], 'read')
        t = getattr(p.reg, 'linktext', None)
        S(st, a[0], cxx.Str(('S', 'link' if t is not None else str(p)), 0, a[2]))
    m(E + r'::basic_string\(char const\*, unsigned long, std::allocator<char> const&\)$', ctorn)
    def plus(ex, st, a, c):
        d = cxx.ir_d(c.name) if False else ir.demangle(c.name[1:])
        arg = d[d.rindex('operator+'):]
        x = text(st, a[1]) if re.search(r'\(char const\*, ', arg) else G(st, a[1])
        y = text(st, a[2]) if arg.endswith('char const*)') else G(st, a[2])
        S(st, a[0], cat(x, y))
    m(E + r' std::operator\+<', plus)
    def append(ex, st, a, c):
        d = ir.demangle(c.name[1:])
        S(st, a[0], cat(G(st, a[0]), text(st, a[1]) if d.endswith('(char const*)') else G(st, a[1])))
        return a[0]
    m(E + r'::(append|operator\+=)\((char const\*|' + E + r' const&)\)$', append)
    def find(ex, st, a, c):
        s, t = G(st, a[0]), G(st, a[1])
        r = ex.fresh('find', 64)
        n = cxx.slen(ex, st, s)
        st.assume(z3.Or(r == cxx.NPOS, z3.And(z3.UGE(r, bv(a[2], 64)), z3.ULE(r, bv(n, 64)))))
        if t.len is not None:
            st.assume(z3.Or(r == cxx.NPOS, z3.And(z3.ULE(bv(t.len, 64), bv(n, 64)), z3.ULE(r, bv(n, 64) - bv(t.len, 64)))))
        st.ghost[('finds',)] = st.ghost.get(('finds',), ()) + ((s, t, r),)
        return r
    m(E + r'::find\(' + E + r' const&, unsigned long\) const$', find)
    # ostringstream: text so far, width and fill of the next item
    key = lambda p: ('ss', p.reg.id)
    def root(st, p):
        return cxx.P(ex, st, p)
    OS = r'std::__cxx11::basic_ostringstream<char, std::char_traits<char>, std::allocator<char> >'
    def osctor(ex, st, a, c):
        st.ghost[key(root(st, a[0]))] = ((), 0, 32)
    m(re.escape(OS) + r'::basic_ostringstream\(\)$', osctor)
    m(re.escape(OS) + r'::~basic_ostringstream\(\)$', lambda ex, st, a, c: st.ghost.pop(key(root(st, a[0])), None) and None)
    def put(st, p, item, isnum=False):
        p = root(st, p)
        if key(p) not in st.ghost:
            raise Unsupported('stream')
        t, w, f = st.ghost[key(p)]
        if isnum:
            item = ('num', item, w, f)
        elif not (isc(w) and w == 0):
            item = ('pad', 0, w, f)
        st.ghost[key(p)] = (t + (item,), 0, f)
        return p
    def setm(st, p, w=None, f=None):
        p = root(st, p)
        t, w0, f0 = st.ghost[key(p)]
        st.ghost[key(p)] = (t, w0 if w is None else w, f0 if f is None else f)
        return p
    m(r'std::setw\(int\)$', lambda ex, st, a, c: a[0])
    m(r'std::_Setfill<char> std::setfill<char>\(char\)$', lambda ex, st, a, c: a[0])
    B = r'std::basic_ostream<char, std::char_traits<char> >& std::operator<< <char, std::char_traits<char>'
    m(re.escape(B) + r'.*std::_Setfill<char>\)$', lambda ex, st, a, c: setm(st, a[0], f=a[1]))
    m(re.escape(B) + r'.*std::_Setw\)$', lambda ex, st, a, c: setm(st, a[0], w=a[1]))
    m(re.escape(B) + r'.*basic_string<.*const&\)$', lambda ex, st, a, c: put(st, a[0], G(st, a[1])))
    m(r'std::basic_ostream<char, std::char_traits<char> >& std::operator<< <std::char_traits<char> >\(.*char const\*\)$', lambda ex, st, a, c: put(st, a[0], text(st, a[1])))
    m(r'std::basic_ostream<char, std::char_traits<char> >::operator<<\(unsigned (int|long)\)$', lambda ex, st, a, c: put(st, a[0], a[1], True))
    def osstr(ex, st, a, c):
        t = st.ghost[key(root(st, a[1]))][0]
        S(st, a[0], cat(*t))
    m(re.escape(OS) + r'::str\(\) const$', osstr)
    m(r'int fmt::v6::fprintf<', lambda ex, st, a, c: ex.fresh('fprintf', 32))
    ex._mcache.clear()

def task_writev(V):
    v = V('output_file::writev')
    F = File(v)
    F.guards()
    iov, n = v.buf('iov', 32), v.sym('count', 32)
    res = v.sym('written', 64)
    v.assume(OR(EQ(res, MASK[64]), ULE(res, z3.BitVecVal(1 << 60, 64))))
    def w(ex, st, a, c):
        ex.oblige(st, 'the current descriptor', EQ(a[0], F.fd0), 'pre')
        ex.oblige(st, 'the data given', AND(ptr_eq(a[1], iov), EQ(a[2], n)), 'pre')
        ex.oblige(st, 'under the write lock', F.locked(st, F.wm), 'lock')
        F.log(st, 'write')
        return res
    v.model(r'^hogl::ostrbuf_fd::writev\(', w)
    v.model(r'^write(v)?$', w)
    s0 = v.st.clone()
    outs = v.call(r'^hogl::output_file::writev\(', [F.p, iov, n])
    ok = z3.And(res != MASK[64], res != 0)
    for st, ret in outs:
        v.ensure(st, 'one write, whole, and its result', AND(len(F.ev(st, 'write')) == 1, EQ(ret, res)))
        v.ensure(st, 'the locks are released', not lib.held(st))
        sz = bv(F.get(st, '_size'), 64)
        v.ensure(st, 'the size counts what was written', EQ(sz, simp(z3.If(ok, F.size0 + res, F.size0))))
        L = st.ghost[('ev',)]
        tried = any(x == ('lock', 'r') for x in L)
        sig = [x for x in L if x[0] == 'signal']
        v.ensure(st, 'a rotation is asked for only when the file has reached its limit', IMP(len(sig) > 0 or tried, AND(ok, UGE(simp(F.size0 + res), F.max))))
        if tried:
            v.ensure(st, 'and then it is pending and the helper is told, under its lock', AND(len(sig) == 1, *[AND(x[1], x[2]) for x in sig]))
        v.unchanged(st, s0, F.p, OF, except_=['_size', '_rotate_pending', '_write_mutex', '_rotate_mutex', '_rotate_cond'])
        v.frame_regions(st, s0, [F.p.reg])
    for st, ret in outs:
        L = st.ghost[('ev',)]
        if ('lock', 'r') in L:
            v.ensure(st, 'the request is recorded', EQ(st.ghost.get('pend_at', 1), 1))
    v.cover_exists('asked', [(st, True) for st, _ in outs if F.ev(st, 'signal')])
    v.cover_exists('below the limit', [(st, AND(ok, ULT(simp(F.size0 + res), F.max))) for st, _ in outs])
    # whenever the limit is reached, nobody asked and the lock is free, this write asks
    asked = [(st, r) for st, r in outs if not F.ev(st, 'signal')]
    for st, r in asked:
        loads = st.ghost.get(('pendread',), ())
        v.ensure(st, 'at the limit the writer asks, unless a request is pending or the helper is busy', IMP(AND(ok, UGE(simp(F.size0 + res), F.max)), OR(st.ghost.get('busy', False), *loads)))

def hook_writev(v, F):
    """remember what the writer saw of the request flag and of the lock"""
    ex = v.ex
    def on_load(ex, st, p, n, i):
        if p.reg is F.p.reg and isc(p.off) and p.off == F.o['_rotate_pending']:
            st.ghost[('pendread',)] = st.ghost.get(('pendread',), ()) + (EQ(ex.peek(st, p, 1), 1),)
    ex.on_load.append(on_load)
    def on_unlock(ex, st, p):
        if ptr_eq(p, F.rm) is True:
            st.ghost['pend_at'] = ex.peek(st, F.p.plus(F.o['_rotate_pending']), 1)
    ex.on_unlock.append(on_unlock)
    def trylock(ex, st, a, c):
        r = lib._trylock(ex, st, a, c)
        r[1][0].ghost['busy'] = True
        return r
    v.model(r'^pthread_mutex_trylock$', trylock)
_guards = File.guards
def _g2(self, *a, **k):
    _guards(self, *a, **k)
    hook_writev(self.v, self)
File.guards = _g2

def fs_models(v, F):
    ex = v.ex
    er = ex.region('errno', 4)
    v.model(r'^__errno_location$', lambda ex, st, a, c: Ptr(er, 0))
    er.frame_ignore = True
    v.model(r'^strerror$', lambda ex, st, a, c: Ptr(ex.region('message', 64), 0))
    def opn(ex, st, a, c):
        t = v.text(st, a[0])
        fl = a[1]
        ex.oblige(st, 'opened for writing, created when missing, emptied when old', isc(fl) and (fl & 0o3) in (1, 2) and (fl & 0o100) != 0 and (fl & 0o1000) != 0, 'pre')
        ex.oblige(st, 'with the requested permissions', EQ(a[2], F.mode) if len(a) > 2 else False, 'pre')
        fd = ex.fresh('newfd', 32)
        s2 = st.clone()
        st.assume(fd >= 0)
        F.log(st, 'open', t, fd, F.get(st, '_name_index'))
        F.log(s2, 'noopen', t, F.get(s2, '_name_index'))
        return [(st, fd), (s2, MASK[32])]
    v.model(r'^open(64)?$', opn)
    v.model(r'^close$', lambda ex, st, a, c: (F.log(st, 'close', a[0]), ex.fresh('close', 32))[1])
    v.model(r'^fsync$|^fdatasync$|^posix_fadvise(64)?$', lambda ex, st, a, c: ex.fresh('r', 32))
    for nm in ('rename', 'symlink'):
        v.model('^%s$' % nm, lambda ex, st, a, c, nm=nm: (F.log(st, nm, v.text(st, a[0]), v.text(st, a[1])), ex.fresh(nm, 32))[1])
    v.model('^(remove|unlink)$', lambda ex, st, a, c: (F.log(st, 'remove', v.text(st, a[0])), ex.fresh('remove', 32))[1])
    # temporary output buffers on a descriptor (R08)
    def fdctor(ex, st, a, c):
        st.ghost[('fdbuf', a[0].reg.id)] = (a[1], a[2])
        st.ghost[('bufbad', a[0].reg.id)] = False
    v.model(r'^hogl::ostrbuf_fd::ostrbuf_fd\(int, ', fdctor)
    fdof = lambda ex, st, p: st.ghost[('fdbuf', cxx.P(ex, st, p).reg.id)][0]
    def fddtor(ex, st, a, c):
        fd, fl = st.ghost[('fdbuf', a[0].reg.id)]
        if not isc(fl) or fl & 1:
            F.log(st, 'close', fd)
    v.model(r'^hogl::ostrbuf_fd::~ostrbuf_fd\(\)$', fddtor)
    def flush(ex, st, a, c):
        k = ('bufbad', cxx.P(ex, st, a[0]).reg.id)
        if k not in st.ghost:
            F.log(st, 'oflush')
            return None
        fd = fdof(ex, st, a[0])
        s2 = st.clone()
        s2.ghost[k] = True
        F.log(st, 'flush', fd)
        F.log(s2, 'flush', fd)
        return [(st, None), (s2, None)]
    v.model(r'^hogl::ostrbuf::flush\(\)$', flush)
    v.model(r'^hv_sb2_flush$', lambda ex, st, a, c: F.log(st, 'oflush'))
    v.model(r'^hogl::ostrbuf::failed\(\) const$', lambda ex, st, a, c: st.ghost[('bufbad', cxx.P(ex, st, a[0]).reg.id)])
    def head(kind):
        def f(ex, st, a, c):
            p = cxx.P(ex, st, a[0])
            st_fd = st.ghost.get(('fdbuf', p.reg.id))
            F.log(st, kind, st_fd[0] if st_fd else p, *([a[2], p.reg.id] if kind == 'header' else []))
        return f
    v.model(r'^hv_fmt_header$', head('header'))
    v.model(r'^hv_fmt_footer$', head('footer'))

def wantname(F, st, idx):
    return cat(F.str(st, '_name_pref'), ('num', idx, F.width, 48), F.str(st, '_name_sufx'))

def task_rotate(V):
    v = V('output_file::do_rotate')
    F = File(v)
    F.guards(helper=True)
    F.names()
    fs_models(v, F)
    v.st.ghost['locks'] = lib.held(v.st) | {lib.lockkey(F.rm)}
    v.ex.models.insert(0, (re.compile(r'^hogl::output_file::update_link\(\)$'), lambda ex, st, a, c: F.log(st, 'link', F.str(st, '_name'))))
    v.ex._mcache.clear()
    # the writer keeps writing while the write lock is free
    grown = lambda st: None
    def on_lock(ex, st, p):
        if ptr_eq(p, F.wm) is True:
            F.set(st, '_size', ex.fresh('size', 64))
    v.ex.on_lock.append(on_lock)
    s0 = v.st.clone()
    outs = v.call(r'^hogl::output_file::do_rotate\(', [F.p])
    nxt = simp(z3.If(z3.ULT(F.idx0 + 1, F.count), F.idx0 + 1, z3.BitVecVal(0, 32)))
    res = []
    for st, _ in outs:
        L = st.ghost[('ev',)]
        E = lambda *k: [x for x in L if x[0] in k]
        at = lambda x: L.index(x)
        v.ensure(st, 'keeps the rotation lock only', lib.held(st) == frozenset({lib.lockkey(F.rm)}))
        op, no = E('open'), E('noopen')
        v.ensure(st, 'tries one new file', len(op) + len(no) == 1)
        if len(op) + len(no) != 1:
            continue
        x = (op + no)[0]
        v.ensure(st, 'with the next index, cyclic within the count', AND(EQ(x[-1], nxt), EQ(F.get(st, '_name_index'), nxt)))
        v.ensure(st, 'named prefix, index, suffix', s_eq(x[1], wantname(F, st, nxt)))
        fd, sw = F.get(st, '_fd'), [k for k, y in enumerate(L) if y == ('lock', 'w')]
        closes = E('close')
        keep = ['_name', '_name_index', '_write_mutex', '_rotate_mutex', '_size', '_fd', '_rotate_pending']
        v.unchanged(st, s0, F.p, OF, except_=keep)
        if no:
            v.ensure(st, 'when it cannot be opened the old file stays', AND(EQ(fd, F.fd0), len(closes) == 0, not E('link', 'footer')))
            v.ensure(st, 'and its size', EQ(F.get(st, '_size'), F.size0) if not sw else True)
            res.append((st, 'noopen'))
            continue
        nfd = op[0][2]
        if same(fd, F.fd0) or not v.ex.feasible(st, z3.Not(boolv(EQ(fd, F.fd0)))):
            v.ensure(st, 'a rotation that does not happen leaves the old file open and closes the new one', AND(len(closes) == 1, *[EQ(c[1], nfd) for c in closes]))
            v.ensure(st, 'only because the header could not be written', AND(len(E('header')) == 1, any(st.ghost[k] is True for k in st.ghost if isinstance(k, tuple) and k[0] == 'bufbad')))
            v.ensure(st, 'no footer, no link', not E('link', 'footer'))
            v.ensure(st, 'the size still says that the limit is reached', EQ(F.get(st, '_size'), F.size0) if not sw else True)
            res.append((st, 'nohead'))
            continue
        res.append((st, 'ok'))
        v.ensure(st, 'the new file takes over', EQ(fd, nfd))
        v.ensure(st, 'empty so far', EQ(F.get(st, '_size'), 0))
        h = E('header')
        v.ensure(st, 'the header, not a first one, is in the new file before data can be', AND(len(h) == 1, *[AND(EQ(y[1], nfd), EQ(y[2], 0)) for y in h]))
        fl = [k for k, y in enumerate(L) if y[0] == 'flush' and same(y[1], nfd)]
        v.ensure(st, 'and flushed', bool(h) and len(sw) == 1 and any(at(h[0]) < k < sw[0] for k in fl))
        v.ensure(st, 'successfully: a file without its header never takes over', all(st.ghost.get(('bufbad', y[3])) is False for y in h))
        ft = E('footer')
        v.ensure(st, 'the footer goes to the old file after the switch, before it is closed', AND(len(ft) == 1, len(closes) == 1, *([EQ(ft[0][1], F.fd0), EQ(closes[0][1], F.fd0), bool(sw) and sw[0] < at(ft[0]) < at(closes[0])] if len(ft) == 1 and len(closes) == 1 else [])))
        fo = [k for k, y in enumerate(L) if y[0] == 'flush' and same(y[1], F.fd0)]
        v.ensure(st, 'and flushed before the old file is closed', bool(ft) and bool(closes) and any(at(ft[0]) < k < at(closes[0]) for k in fo))
        un = [k for k, y in enumerate(L) if y == ('unlock', 'w')]
        v.ensure(st, 'the old file is closed after the switch', bool(un) and bool(closes) and un[0] < at(closes[0]))
        lk = E('link')
        v.ensure(st, 'the link follows', AND(len(lk) == 1, *[s_eq(y[1], wantname(F, st, nxt)) for y in lk]))
    for k in ('ok', 'noopen', 'nohead'):
        v.cover_exists(k, [(st, True) for st, x in res if x == k])

def task_loop(V):
    v = V('output_file::thread_loop')
    F = File(v)
    F.guards(helper=True)
    ex = v.ex
    v.st.ghost.update(done=z3.BitVecVal(0, 8), rotations=z3.BitVecVal(0, 8))
    def rot(ex, st, a, c):
        ex.oblige(st, 'rotates under the rotation lock', F.locked(st, F.rm), 'lock')
        ex.oblige(st, 'rotates only when asked', EQ(F.get(st, '_rotate_pending'), 1), 'post')
        ex.oblige(st, 'once per request', EQ(st.ghost['done'], 0), 'post')
        st.ghost['done'] = z3.BitVecVal(1, 8)
    v.ex.models.insert(0, (re.compile(r'^hogl::output_file::do_rotate\(\)$'), rot))
    def on_store(ex, st, p, n, val, i):
        if p.reg is F.p.reg and isc(p.off) and p.off == F.o['_rotate_pending']:
            ex.oblige(st, 'a request is dropped only when it was carried out', OR(NE(val, 0), EQ(st.ghost['done'], 1), EQ(F.get(st, '_rotate_pending'), 0)), 'post')
            st.ghost['done'] = z3.BitVecVal(0, 8)
    ex.on_store.append(on_store)
    def on_wait(ex, st, cnd, m):
        ex.oblige(st, 'waits for its own requests', AND(ptr_eq(cnd, F.rc), ptr_eq(m, F.rm)), 'pre')
        ex.oblige(st, 'sleeps only after it has seen, under the lock, that there is no request', EQ(F.get(st, '_rotate_pending'), 0), 'post')
        ex.oblige(st, 'and that it is not to stop', st.ghost['sawkill'], 'post')
        ex.oblige(st, 'not to stop', EQ(st.ghost['killval'], 0), 'post')
        F.set(st, '_rotate_pending', F.b8(ex.fresh('pending', 'bool')))
        F.set(st, '_killed', F.b8(boolv(OR(EQ(F.get(st, '_killed'), 1), ex.fresh('killed', 'bool')))))
        st.ghost['sawkill'] = False
    ex.on_wait = getattr(ex, 'on_wait', []) + [on_wait]
    v.st.ghost['killval'] = z3.BitVecVal(1, 8)
    def on_load(ex, st, p, n, i):
        if p.reg is F.p.reg and isc(p.off) and p.off == F.o['_killed']:
            st.ghost['killval'] = bv(ex.peek(st, p, 1), 8)
    ex.on_load.append(on_load)
    rk = lib.lockkey(F.rm)
    def cands(ex, st, lv):
        return [('nothing half done', EQ(st.ghost['done'], 0)), ('flag is 0 or 1', ULE(bv(F.get(st, '_rotate_pending'), 8), 1)), ('killed is 0 or 1', ULE(bv(F.get(st, '_killed'), 8), 1)), ('killed seen', IMP(EQ(st.ghost['killval'], 1), EQ(F.get(st, '_killed'), 1)))]
    def inv(ex, st, lv):
        return [('the rotation lock is held', rk in lib.held(st))]
    def havoc(ex, st, e):
        st.ghost[('ev',)] = ()
    v.loop(r'', LoopSpec(cands=cands, inv=inv, havoc=havoc, ghost=('done', 'sawkill', 'killval')))
    outs = v.call(r'^hogl::output_file::thread_loop\(\)', [F.p])
    for st, _ in outs:
        v.ensure(st, 'stops only when told to', EQ(F.get(st, '_killed'), 1))
        v.ensure(st, 'releases the lock', not lib.held(st))
    v.cover_exists('stops', [(st, True) for st, _ in outs])

def task_switch(V):
    v = V('output_file::switch_name')
    F = File(v)
    F.guards()
    fn = v.buf('filename', 64)
    def init(ex, st, a, c):
        ex.oblige(st, 'the name state is changed under the rotation lock', F.locked(st, F.rm), 'lock')
        ex.oblige(st, 'to the given name', ptr_eq(a[1], fn), 'pre')
        F.log(st, 'init')
    v.ex.models.insert(0, (re.compile(r'^hogl::output_file::init_name\('), init))
    s0 = v.st.clone()
    for st, ret in v.call(r'^hogl::output_file::switch_name\(char const\*\)', [F.p, fn]):
        v.ensure(st, 'takes the new name once', len(F.ev(st, 'init')) == 1)
        v.ensure(st, 'asks for a rotation under the lock', AND(EQ(F.get(st, '_rotate_pending'), 1), EQ(st.ghost.get('pend_at', 0), 1)))
        sg = F.ev(st, 'signal')
        v.ensure(st, 'and tells the helper', AND(len(sg) >= 1, *[AND(x[1], x[2]) for x in sg]))
        v.ensure(st, 'releases the lock', not lib.held(st))
        v.ensure(st, 'accepts', EQ(boolv(ret), True))
        v.unchanged(st, s0, F.p, OF, except_=['_rotate_pending', '_rotate_mutex', '_rotate_cond'])
        v.cover('returns', st)

def task_dtor(V):
    v = V('output_file::~output_file')
    F = File(v)
    v.assume(NOT(F.kill0))
    F.guards(helper=True)
    F.names()
    fs_models(v, F)
    sb = v.obj('hogl::ostrbuf', 'ostrbuf')
    F.vt(sb, '@_ZTV6hv_sb2')
    F.set(v.st, '_ostrbuf', sb)
    thr = v.sym('thread', 64)
    F.set(v.st, '_rotate_thread', thr)
    def join(ex, st, a, c):
        F.log(st, 'join', EQ(a[0], thr), not lib.held(st))
        F.set(st, '_rotate_pending', F.b8(ex.fresh('pending', 'bool')))
        F.set(st, '_fd', ex.fresh('fd_now', 32)); st.ghost[('fdnow',)] = F.get(st, '_fd')
        return 0
    v.model(r'^pthread_join$', join)
    v.ex.models.insert(0, (re.compile(r'^hogl::output_file::update_link\(\)$'), lambda ex, st, a, c: None))
    v.model(r'^hv_sb2_delete$', lambda ex, st, a, c: F.log(st, 'delete', ptr_eq(a[0], sb)))
    v.model(r'^hogl::output::~output\(\)$', lambda ex, st, a, c: F.log(st, 'base', F.get(st, '_ostrbuf', True)))
    v.model(r'^hogl::ostrbuf::~ostrbuf\(\)$|^operator delete', lambda ex, st, a, c: None)
    n = [x for x in v.cands(r'^hogl::output_file::~output_file\(\)') if x.endswith('D2Ev')][0]
    outs = v.call(n, [F.p])
    for st, _ in outs:
        L = st.ghost[('ev',)]
        i = lambda k: [j for j, x in enumerate(L) if x[0] == k]
        kl, sg, jn, ft, dl, cl, fl = (i(k) for k in ('kill', 'signal', 'join', 'footer', 'delete', 'close', 'oflush'))
        v.ensure(st, 'the helper is told to stop: flag first, then the signal under the lock', AND(len(kl) == 1, len(sg) >= 1, bool(kl and sg and L[kl[0]][1] is not None and kl[0] < sg[-1]), *[AND(L[j][1], L[j][2]) for j in sg]))
        v.ensure(st, 'the flag says stop', EQ(F.get(st, '_killed'), 1))
        v.ensure(st, 'and waited for, without a lock', AND(len(jn) == 1, bool(jn and sg and sg[-1] < jn[0]), *[AND(L[j][1], L[j][2]) for j in jn]))
        ok = bool(jn and ft and dl and cl) and len(ft) == len(dl) == len(cl) == 1
        v.ensure(st, 'then the footer is written, flushed, the buffer deleted and the file closed, in that order', ok and bool(fl) and jn[0] < ft[0] < fl[-1] < dl[0] < cl[0] or ok and jn[0] < ft[0] and bool(fl) and ft[0] < fl[0] < dl[0] < cl[0])
        if ok:
            v.ensure(st, 'the footer of this buffer', ptr_eq(L[ft[0]][1], sb))
            v.ensure(st, 'the buffer', L[dl[0]][1])
            v.ensure(st, 'the descriptor in use', EQ(L[cl[0]][1], st.ghost[('fdnow',)]))
        bs = F.ev(st, 'base')
        v.ensure(st, 'nothing is deleted twice', AND(len(bs) == 1, *[is_null(x[1]) for x in bs]))
        v.ensure(st, 'no lock is left', not lib.held(st))
        v.cover('returns', st)

def task_ctor(V):
    v = V('output_file::output_file')
    F = File(v, blank=True)
    F.guards(ctor=True)
    strings(v)
    fs_models(v, F)
    OP = 'hogl::output_file::options'
    op = v.obj(OP, 'options')
    sp = v.sym('schedparam', 64)
    for f, x in (('perms', F.mode), ('max_size', F.max), ('max_count', F.count), ('schedparam', sp)):
        v.set(v.st, op, OP, f, x)
    cap = v.sym('buffer', 64)
    v.set(v.st, op, OP, 'buffer_capacity', cap)
    fn = v.buf('filename', 64)
    ex = v.ex
    def base(ex, st, a, c):
        F.set(st, '_format', a[1]); F.set(st, '_ostrbuf', NULL)
        F.log(st, 'base')
    v.model(r'^hogl::output::output\(hogl::format&\)$', base)
    v.model(r'^hogl::output::~output\(\)$', lambda ex, st, a, c: F.log(st, 'unbase'))
    NAME = cxx.Str(('S', 'the name'), 0, v.sym('namelen', 64))
    def init(ex, st, a, c):
        ex.oblige(st, 'the name given', ptr_eq(a[1], fn), 'pre')
        ex.oblige(st, 'the file count is known', EQ(F.get(st, '_max_count'), F.count), 'pre')
        F.log(st, 'init')
        F.set(st, '_name_index', F.idx0); F.set(st, '_index_width', F.width)
        cxx.setstr(st, v.fptr(F.p, OF, '_name'), NAME)
    v.ex.models.insert(0, (re.compile(r'^hogl::output_file::init_name\('), init))
    v.ex.models.insert(0, (re.compile(r'^hogl::output_file::update_link\(\)$'), lambda ex, st, a, c: F.log(st, 'link')))
    sb = v.obj('hogl::ostrbuf', 'ostrbuf')
    F.vt(sb, '@_ZTV6hv_sb2')
    def sbctor(ex, st, a, c):
        st.ghost[('sb',)] = (a[1], a[2], a[0])
    v.ex.models.insert(0, (re.compile(r'^hogl::ostrbuf_file::ostrbuf_file\('), sbctor))
    def oinit(ex, st, a, c):
        s = st.ghost.get(('sb',))
        ex.oblige(st, 'the buffer writes to this file', AND(s is not None, ptr_eq(s[0], F.p), ptr_eq(s[2], cxx.P(ex, st, a[1])), EQ(simp(z3.Extract(31, 0, bv(cap, 64))), s[1]) if s is not None and not isc(s[1]) and s[1].size() == 32 else True) if s is not None else False, 'post')
        F.set(st, '_ostrbuf', sb)
        F.log(st, 'buffer')
    v.model(r'^hogl::output::init\(', oinit)
    def create(ex, st, a, c):
        f = a[2]
        s2 = st.clone()
        F.log(st, 'thread', ptr_eq(a[3], F.p), ptr_eq(a[0], v.fptr(F.p, OF, '_rotate_thread')), getattr(f, 'reg', None) is not None and 'thread_entry' in ir.demangle(str(getattr(f.reg, 'name', ''))[1:] or 'x'), EQ(F.get(st, '_rotate_pending'), 0), EQ(F.get(st, '_killed'), 0), EQ(F.get(st, '_rotate_schedparam'), sp))
        F.log(s2, 'nothread')
        e = ex.fresh('err', 32)
        s2.assume(e != 0)
        return [(st, 0), (s2, e)]
    v.model(r'^pthread_create$', create)
    v.model(r'^std::(runtime_error|logic_error)::', lambda ex, st, a, c: None)
    thrown = []
    ex.on_throw = getattr(ex, 'on_throw', []) + [lambda ex, st, *a: thrown.append(st.clone())]
    outs = v.call([x for x in v.cands(r'^hogl::output_file::output_file\(char const\*, ') if 'C2' in x][0], [F.p, fn, F.fmt, op])
    for st, _ in outs:
        L = st.ghost[('ev',)]
        i = lambda k: [j for j, x in enumerate(L) if x[0] == k]
        order = [i(k) for k in ('init', 'open', 'buffer', 'header', 'link', 'thread')]
        v.ensure(st, 'name, file, buffer, header, link: each once', all(len(x) == 1 for x in order[:5]))
        v.ensure(st, 'the helper is started once', len(order[5]) == 1)
        if not all(len(x) == 1 for x in order):
            continue
        (ni,), (oi,), (bi,), (hi,), (li,), (ti,) = order
        v.ensure(st, 'the file is opened under its name, has its buffer and its header, and only then the helper starts', ni < oi < bi < hi < ti and oi < li and ni < ti and li < ti)
        v.ensure(st, 'the whole header is in the file before the helper can rotate it', any(hi < k < ti for k in i('oflush')))
        v.ensure(st, 'the helper runs on this object, nothing is pending', AND(*L[ti][1:]))
        v.ensure(st, 'the first header', AND(ptr_eq(L[hi][1], sb), EQ(L[hi][2], 1)))
        v.ensure(st, 'the file opened is the named one', s_eq(L[oi][1], NAME))
        v.ensure(st, 'its descriptor is the current one and stays open', AND(EQ(F.get(st, '_fd'), L[oi][2]), not i('close')))
        v.ensure(st, 'nothing written yet, limits as asked', AND(EQ(F.get(st, '_size'), 0), EQ(F.get(st, '_max_size'), F.max), EQ(F.get(st, '_max_count'), F.count), EQ(F.get(st, '_mode'), F.mode)))
        v.cover('returns', st)
    for st in thrown:
        L = st.ghost[('ev',)]
        i = lambda k: [x for x in L if x[0] == k]
        v.ensure(st, 'a constructor that fails leaves no helper behind', not i('thread'))
        v.ensure(st, 'and no open file', AND(len(i('open')) == len(i('close')), *[EQ(a[2], b[1]) for a, b in zip(i('open'), i('close'))]))
    v.ensure(v.st, 'both failures are reported', len(thrown) >= 2)

def task_names(V):
    # update_name
    v = V('output_file::update_name')
    F = File(v)
    F.names()
    s0 = v.st.clone()
    for st, _ in v.call(r'^hogl::output_file::update_name\(\)', [F.p]):
        v.ensure(st, 'prefix, zero padded index, suffix', s_eq(F.str(st, '_name'), wantname(F, s0, F.idx0)))
        for f in ('_symlink', '_name_pref', '_name_sufx'):
            v.ensure(st, '%s kept' % f, cxx.str_eq(F.str(st, f), F.str(s0, f)))
        v.unchanged(st, s0, F.p, OF, except_=['_name'])
        v.cover('returns', st)
    # update_link
    v = V('output_file::update_link')
    F = File(v)
    F.names()
    fs_models(v, F)
    s0 = v.st.clone()
    outs = v.call(r'^hogl::output_file::update_link\(\)', [F.p])
    tmp = cat(F.str(s0, '_symlink'), LIT(b'$'))
    for st, _ in outs:
        L = F.ev(st, 'symlink', 'rename')
        v.ensure(st, 'a temporary link to the current file is put in place of the link', [x[0] for x in L] == ['symlink', 'rename'])
        if len(L) == 2:
            v.ensure(st, 'to the current file', cxx.str_eq(L[0][1], F.str(s0, '_name')))
            v.ensure(st, 'in place of the link', AND(s_eq(L[0][2], L[1][1]), s_eq(L[1][2], F.str(s0, '_symlink'))))
        for x in F.ev(st, 'remove'):
            v.ensure(st, 'removes nothing but the temporary link', s_eq(x[1], L[0][2]) if L else False)
        v.cover('returns', st)
    # init_name
    v = V('output_file::init_name')
    F = File(v)
    F.names()
    ex = v.ex
    n = v.sym('namelen', 64)
    v.assume(ULE(n, 1 << 12))
    fn = v.buf('filename', simp(n + 1))
    fn.reg.strlen = n
    src = ('S', 'filename')
    fn.reg.text = cxx.Str(src, 0, n)
    ex.strids = {src: z3.BitVecVal(1, 64)}
    ex.strchars = {src: fn.reg}
    kpos = v.sym('k', 64)
    def rl(ex, st, a, c):
        F.log(st, 'link', F.get(st, '_index_width'))
        st.ghost[('idx',)] = ex.fresh('index_read', 32)
        return st.ghost[('idx',)]
    ex.models.insert(0, (re.compile(r'^hogl::output_file::read_link\(\)'), rl))
    ex.models.insert(0, (re.compile(r'^hogl::output_file::update_name\(\)'), lambda ex, st, a, c: F.log(st, 'update', F.get(st, '_name_index'))))
    v.ex.strfind1 = True
    s0 = v.st.clone()
    split = cxx.STRFIND(bv(1, 64), bv(35, 8), bv(0, 64))
    chars = s0.m(fn.reg)
    ch = lambda q: bv(chars.read(None, simp(q), 1), 8)
    outs = v.call(r'^hogl::output_file::init_name\(', [F.p, fn])
    whole = cxx.Str(src, 0, n)
    for st, _ in outs:
        pref, sufx, sl = F.str(st, '_name_pref'), F.str(st, '_name_sufx'), F.str(st, '_symlink')
        W = bv(F.get(st, '_index_width'), 32)
        has = split != cxx.NPOS
        if not v.ex.feasible(st, z3.Not(has)):
            part = lambda b, l: cxx.Str(src, b, simp(l))
            v.ensure(st, 'the prefix ends where the # is', cxx.str_eq(pref, part(0, split)))
            v.ensure(st, 'the suffix starts behind it', cxx.str_eq(sufx, part(simp(split + 1), simp(n - split - 1))))
            dup = z3.And(split != 0, ch(split - 1) == ch(split + 1))
            ps = pieces(sl)
            v.ensure(st, 'the link is the prefix, less a doubled character, and the suffix', AND(len(ps) == 2, *([cxx.str_eq(ps[0], part(0, simp(z3.If(dup, split - 1, split)))), cxx.str_eq(ps[1], sufx)] if len(ps) == 2 and not isinstance(ps[0], tuple) else [False])))
        elif not v.ex.feasible(st, has):
            v.ensure(st, 'without # the index goes behind the name and a dot', AND(s_eq(pref, cat(whole, LIT(b'.'))), s_eq(sufx, LIT(b'')), s_eq(sl, whole)))
        else:
            v.ensure(st, 'looks for the #', False)
        p10 = [z3.BitVecVal(10 ** k, 64) for k in range(20)]
        c64 = z3.ZeroExt(32, F.count)
        good = z3.Or(*[z3.And(W == k, z3.ULE(c64, p10[k]), k == 1 or z3.UGT(c64, p10[k - 1])) for k in range(1, 11)])
        v.ensure(st, 'as many digits as the largest index needs', good)
        L = F.ev(st, 'link', 'update')
        v.ensure(st, 'continues after the file the link points at, then makes the name', [x[0] for x in L] == ['link', 'update'])
        if len(L) == 2:
            v.ensure(st, 'with that index', AND(EQ(L[1][1], st.ghost[('idx',)]), EQ(F.get(st, '_name_index'), st.ghost[('idx',)]), EQ(L[0][1], W)))
        v.unchanged(st, s0, F.p, OF, except_=['_index_width', '_name_index'])
    v.cover_exists('with #', [(st, split != cxx.NPOS) for st, _ in outs])
    v.cover_exists('without #', [(st, split == cxx.NPOS) for st, _ in outs])
    v.cover_exists('ten digits', [(st, EQ(F.get(st, '_index_width'), 10)) for st, _ in outs])
    # read_link
    v = V('output_file::read_link')
    F = File(v)
    F.names()
    fs_models(v, F)
    ex = v.ex
    v.assume(ULE(F.width, 10))
    def rdl(ex, st, a, c):
        ex.oblige(st, 'reads the link', cxx.str_eq(v.text(st, a[0]), F.str(st, '_symlink')), 'pre')
        lib.range_ok(ex, st, a[1], a[2], 'write')
        st.m(a[1].reg)
        a[1].reg.linktext = True
        r = ex.fresh('linklen', 64)
        s2 = st.clone()
        st.assume(z3.ULE(r, bv(a[2], 64)))
        s2.ghost[('nolink',)] = True
        return [(st, r), (s2, MASK[64])]
    v.model(r'^readlink$', rdl)
    num = v.sym('number', 64)
    def stl(ex, st, a, c):
        t = v.text(st, a[0])
        st.ghost[('parsed',)] = t
        ex.oblige(st, 'decimal', EQ(a[2], 10), 'pre')
        return num
    v.model(r'^(__isoc23_)?strtoull?$', stl)
    s0 = v.st.clone()
    outs = v.call(r'^hogl::output_file::read_link\(\)', [F.p])
    for st, ret in outs:
        v.ensure(st, 'an index within the count', OR(EQ(ret, 0), ULT(ret, F.count)))
        t = st.ghost.get(('parsed',))
        fs = st.ghost.get(('finds',), ())
        if t is None:
            v.ensure(st, 'starts at zero without a link that fits', EQ(ret, 0))
            continue
        v.ensure(st, 'not without a link', ('nolink',) not in st.ghost)
        nx = simp(num + 1)
        v.ensure(st, 'the next index, cyclic, zero for one out of range', EQ(simp(z3.ZeroExt(32, bv(ret, 32))), simp(z3.If(z3.And(num != MASK[64], z3.ULT(num, z3.ZeroExt(32, F.count)), z3.ULT(nx, z3.ZeroExt(32, F.count))), nx, z3.BitVecVal(0, 64)))))
        P = [(r, tt) for s, tt, r in fs if tt.src == ('S', '_name_pref')]
        v.ensure(st, 'the link must start with the prefix', AND(len(P) == 1, *[EQ(r, 0) for r, _ in P]))
        lp = v.sym('len_name_pref', 64)
        v.ensure(st, 'the number follows the prefix', AND(t.src == ('S', 'link'), EQ(t.beg, lp)))
        Q = [r for s, tt, r in fs if tt.src == ('S', '_name_sufx')]
        v.ensure(st, 'and a suffix, when there is one, ends it', OR(EQ(v.sym('len_name_sufx', 64), 0), AND(len(Q) == 1, *[AND(NE(r, cxx.NPOS), EQ(t.len, r)) for r in Q])))
        v.unchanged(st, s0, F.p, OF)
    v.cover_exists('no link', [(st, ('nolink',) in st.ghost) for st, _ in outs])
    v.cover_exists('continues', [(st, EQ(ret, 3)) for st, ret in outs])

def task_flush(V):
    """one flush of the buffer is one write to the file"""
    for given in (True, False):
        v = V('ostrbuf_file::do_flush(%s)' % ('data' if given else 'no data'))
        offs(v)
        b = Buf(v, 'hogl::ostrbuf_file', '@_ZTVN4hogl12ostrbuf_fileE')
        v.assume(NOT(b.failed0))
        src, n = b.new()
        if not given:
            v.assume(n == 0)
            src = NULL
        of = v.obj(OF, 'output_file')
        v.set(v.st, b.p, b.cls, '_of', of)
        v.st.ghost['writes'] = 0
        def w(ex, st, a, c):
            ex.oblige(st, 'its file', ptr_eq(a[0], of), 'pre')
            st.ghost['writes'] += 1
            return ex.fresh('written', 64)
        v.model(r'^hogl::output_file::writev?\(', w)
        v.model(r'^strerror$', lambda ex, st, a, c: Ptr(ex.region('message', 64), 0))
        v.model(r'^hogl::ostrbuf::failure\(', lambda ex, st, a, c: None)
        outs = v.call(r'^hogl::ostrbuf_file::do_flush\(', [b.p, src, n])
        for st, _ in outs:
            v.ensure(st, 'what is flushed goes to the file in one write: it is never split over two files', st.ghost['writes'] <= 1)
            v.ensure(st, 'something to flush is written', OR(EQ(b.total, 0), st.ghost['writes'] == 1))
        v.cover_exists('flushes', [(st, st.ghost['writes'] == 1) for st, _ in outs])

TASKS = [('writev', task_writev), ('rotate', task_rotate), ('loop', task_loop), ('switch', task_switch), ('dtor', task_dtor), ('ctor', task_ctor), ('names', task_names), ('flush', task_flush)]
REPLAY = {'src': 'R15.cc', 'timeout': 200, 'hang_is_failure': True, 'libs': ['-Wl,--wrap=open,--wrap=write,--wrap=writev,--wrap=pthread_create,--wrap=pthread_cond_wait']}
