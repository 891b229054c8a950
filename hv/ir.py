"""Front end: compile a real C++ translation unit to LLVM IR and parse the textual IR.

What the extraction drops: exception unwinding edges (an `invoke` is treated as a call that
returns normally; landing pads are never executed), debug values, TBAA and lifetime markers.
Everything else is the code clang generates for /repo's sources, before any optimisation
other than promotion of non-escaping locals to SSA registers (sroa)."""
import os, re, subprocess, hashlib

CLANG = next(p for p in ('/usr/lib/llvm-18/bin/clang++', '/usr/bin/clang++-18', '/usr/bin/clang++') if os.path.exists(p))
OPT = next(p for p in ('/usr/lib/llvm-18/bin/opt', '/usr/bin/opt-18', '/usr/bin/opt') if os.path.exists(p))
REPO = os.environ.get('HV_REPO', '/repo')

class CompileError(Exception):
    pass

def compile_tu(src, workdir, defines=(), std='c++11', extra=()):
    os.makedirs(workdir, exist_ok=True)
    tag = hashlib.sha1((src + repr(defines) + repr(extra)).encode()).hexdigest()[:8]
    base = os.path.join(workdir, os.path.basename(src).replace('.', '_') + '_' + tag)
    cmd = [CLANG, '-std=' + std, '-I' + REPO + '/include', '-I' + REPO + '/_build', '-I' + REPO, '-I' + REPO + '/tools', '-I' + REPO + '/src',
           '-O1', '-Xclang', '-disable-llvm-passes', '-fno-discard-value-names', '-fstandalone-debug', '-g',
           '-fno-access-control', '-w', '-S', '-emit-llvm'] + ['-D' + d for d in defines] + list(extra) + [src, '-o', base + '.0.ll']
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise CompileError(r.stderr[-3000:])
    r = subprocess.run([OPT, '-passes=function(sroa,loop-simplify)', '-S', base + '.0.ll', '-o', base + '.ll'], capture_output=True, text=True)
    if r.returncode:
        raise CompileError(r.stderr[-3000:])
    with open(base + '.ll') as f:
        txt = f.read()
    os.unlink(base + '.0.ll')
    return Module(txt, src)

TOK = re.compile(r'''\s*(?:(%"(?:[^"\\]|\\.)*"|%[-\w.$]+)|(@"(?:[^"\\]|\\.)*"|@[-\w.$]+)|(c"(?:[^"\\]|\\.)*")|("(?:[^"\\]|\\.)*")|(\$"(?:[^"]*)"|\$[-\w.$]+)|(![-\w.$]*)|(0x[0-9A-Fa-fKLMHR]+|-?\d+\.\d+(?:e[+-]?\d+)?|-?\d+)|([A-Za-z_.][-\w.]*|\.\.\.)|(\#\d+)|([<>\[\]{}(),=*:|]))''')

def tokenize(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == '':
                break
            raise SyntaxError('tokenize: ' + s[i:i + 60])
        out.append(m.group(m.lastindex))
        i = m.end()
    return out

ATTRS = set('noundef nonnull zeroext signext inreg byval nocapture readonly readnone writeonly returned noalias immarg nofree nest swiftself allocalign allocptr writable dead_on_unwind captures range nofpclass'.split())
PATTRS = set('align dereferenceable dereferenceable_or_null sret byval elementtype byref preallocated inalloca'.split())

class P:
    """token stream parser"""
    def __init__(self, toks, mod):
        self.t = toks
        self.i = 0
        self.mod = mod
    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else None
    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x
    def eat(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False
    def expect(self, x):
        if not self.eat(x):
            raise SyntaxError('expected %r got %r in %r' % (x, self.peek(), ' '.join(self.t)[:300]))
    def type(self):
        t = self.next()
        if t == 'void':
            r = ('void',)
        elif re.fullmatch(r'i\d+', t):
            r = ('i', int(t[1:]))
        elif t == 'ptr':
            r = ('ptr',)
            if self.peek() == 'addrspace':
                self.next(); self.expect('('); self.next(); self.expect(')')
        elif t in ('float', 'double', 'half', 'x86_fp80', 'fp128'):
            r = ('f', {'float': 32, 'double': 64, 'half': 16, 'x86_fp80': 80, 'fp128': 128}[t])
        elif t == 'label':
            r = ('label',)
        elif t == 'metadata':
            r = ('metadata',)
        elif t == 'opaque':
            r = ('struct', (), False)
        elif t == '[':
            n = int(self.next())
            self.expect('x')
            e = self.type()
            self.expect(']')
            r = ('array', n, e)
        elif t == '{':
            r = self._struct('}')
        elif t == '<':
            if self.peek() == '{':
                self.next()
                r = self._struct('}')
                r = ('struct', r[1], True)
                self.expect('>')
            else:
                n = int(self.next())
                self.expect('x')
                e = self.type()
                self.expect('>')
                r = ('vec', n, e)
        elif t.startswith('%'):
            r = ('named', t)
        else:
            raise SyntaxError('type? %r in %r' % (t, ' '.join(self.t)[:200]))
        # function type suffix
        if self.peek() == '(' and r[0] != 'metadata' and getattr(self, 'allow_fn', False):
            d = 0
            while True:
                x = self.next()
                if x == '(':
                    d += 1
                elif x == ')':
                    d -= 1
                    if d == 0:
                        break
            r = ('func', r)
        return r
    def _struct(self, close):
        el = []
        if self.eat(close):
            return ('struct', (), False)
        while True:
            el.append(self.type())
            if self.eat(close):
                break
            self.expect(',')
        return ('struct', tuple(el), False)
    def skip_attrs(self):
        while True:
            p = self.peek()
            if p in PATTRS:
                self.next()
                if p == 'align' and self.peek() != '(':
                    self.next()
                elif self.peek() == '(':
                    self.skip_parens()
            elif p in ATTRS:
                self.next()
                if self.peek() == '(':
                    self.skip_parens()
            elif p and p.startswith('#'):
                self.next()
            else:
                return
    def skip_parens(self):
        d = 0
        while True:
            x = self.next()
            if x == '(':
                d += 1
            elif x == ')':
                d -= 1
                if d == 0:
                    return
    def value(self, ty):
        t = self.next()
        if t[0] == '%':
            return ('reg', t)
        if t[0] == '@':
            return ('glob', unq(t))
        if t in ('true', 'false'):
            return ('int', 1 if t == 'true' else 0)
        if t == 'null':
            return ('null',)
        if t in ('undef', 'poison'):
            return ('undef',)
        if t == 'zeroinitializer':
            return ('zero',)
        if t[0] == 'c' and t[1:2] == '"':
            return ('bytes', cstr(t[2:-1]))
        if t == 'getelementptr':
            while self.peek() in ('inbounds', 'nuw', 'nusw', 'inrange'):
                self.next()
                if self.peek() == '(' and self.t[self.i - 1] == 'inrange':
                    self.skip_parens()
            self.expect('(')
            bt = self.type()
            self.expect(',')
            ops = []
            while True:
                if self.peek() == 'inrange':
                    self.next()
                    if self.peek() == '(':
                        self.skip_parens()
                ot = self.type()
                ops.append((ot, self.value(ot)))
                if self.eat(')'):
                    break
                self.expect(',')
            return ('gep', bt, ops)
        if t in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'sext'):
            self.expect('(')
            st = self.type()
            v = self.value(st)
            self.expect('to')
            dt = self.type()
            self.expect(')')
            return ('cast', t, st, v, dt)
        if t == 'icmp':
            pr = self.next()
            self.expect('('); a = self.type(); av = self.value(a); self.expect(','); b = self.type(); bv = self.value(b); self.expect(')')
            return ('cicmp', pr, a, av, bv)
        if t in ('sub', 'add', 'and', 'or', 'xor', 'shl', 'mul'):
            while self.peek() in ('nsw', 'nuw'):
                self.next()
            self.expect('(')
            a = self.type(); av = self.value(a); self.expect(','); b = self.type(); bv = self.value(b); self.expect(')')
            return ('cbin', t, a, av, bv)
        if t == '{' or (t == '<' and self.peek() == '{'):
            if t == '<':
                self.next()
            el = []
            if not self.eat('}'):
                while True:
                    et = self.type()
                    el.append((et, self.value(et)))
                    if self.eat('}'):
                        break
                    self.expect(',')
            if t == '<':
                self.expect('>')
            return ('agg', el)
        if t == '[' or t == '<':
            close = ']' if t == '[' else '>'
            el = []
            if not self.eat(close):
                while True:
                    et = self.type()
                    el.append((et, self.value(et)))
                    if self.eat(close):
                        break
                    self.expect(',')
            return ('agg', el)
        if ty and ty[0] == 'f':
            return ('fp', t)
        if re.fullmatch(r'-?\d+', t):
            return ('int', int(t))
        if t == 'no_cfi' or t == 'dso_local_equivalent':
            return self.value(ty)
        if t == 'asm':
            return ('asm',)
        raise SyntaxError('value? %r type %r in %r' % (t, ty, ' '.join(self.t)[:200]))
    def tval(self):
        ty = self.type()
        self.skip_attrs()
        return (ty, self.value(ty))

def unq(t):
    if t[1:2] == '"':
        return t[0] + t[2:-1]
    return t

def cstr(s):
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\':
            out.append(int(s[i + 1:i + 3], 16))
            i += 3
        else:
            out.append(ord(s[i]))
            i += 1
    return bytes(out)

class Instr:
    __slots__ = ('op', 'res', 'ty', 'a', 'line', 'volatile', 'flags', 'text')
    def __init__(self, op, res=None, ty=None, a=None, line=None, volatile=False, flags=(), text=''):
        self.op = op; self.res = res; self.ty = ty; self.a = a; self.line = line; self.volatile = volatile; self.flags = flags; self.text = text
    def __repr__(self):
        return '<%s>' % self.text

class Func:
    def __init__(self, name, module, header, body, line0):
        self.name = name; self.module = module; self.header = header; self.body = body; self.line0 = line0
        self._parsed = False
    def parse(self):
        if self._parsed:
            return self
        h = self.header
        m = re.search(r'@("[^"]*"|[-\w.$]+)\(', h)
        toks = tokenize(re.sub(r'![a-z]+ !\d+|\bpersonality ptr @[\w.$]+', '', h[m.end():h.rindex('{')]))
        p = P(toks, self.module)
        self.params = []
        self.ptypes = []
        self.sret = False
        self.varargs = False
        if not p.eat(')'):
            while True:
                if p.eat('...'):
                    self.varargs = True
                    p.expect(')')
                    break
                ty = p.type()
                j = p.i
                p.skip_attrs()
                if 'sret' in p.t[j:p.i]:
                    self.sret = True
                nm = p.next()
                self.params.append(nm)
                self.ptypes.append(ty)
                if p.eat(')'):
                    break
                p.expect(',')
        rh = h[len('define'):m.start()]
        p = P(tokenize(rh), self.module)
        rt = None
        while p.peek() is not None:
            try:
                k = p.i
                rt = p.type()
            except SyntaxError:
                p.i = k + 1
        self.rtype = rt or ('void',)
        self.blocks = {}
        self.order = []
        cur = None
        lines = self.body
        i = 0
        joined = []
        while i < len(lines):
            l = lines[i]
            while i + 1 < len(lines) and (re.match(r'\s{6,}\S', lines[i + 1]) or re.match(r'^  \]', lines[i + 1]) or re.match(r'^    i\d+ -?\d+, label', lines[i + 1])):
                i += 1
                l = l + ' ' + lines[i].strip()
            joined.append(l)
            i += 1
        for l in joined:
            s = l.strip()
            if not s or s.startswith(';'):
                continue
            m = re.match(r'^("(?:[^"]*)"|[-\w.$]+):', l)
            if m:
                cur = '%' + m.group(1)
                self.blocks[cur] = []
                self.order.append(cur)
                continue
            if cur is None:
                cur = '%entry'
                # unnamed entry block: numbered after params
                self.blocks[cur] = []
                self.order.append(cur)
            ins = parse_instr(s, self.module)
            if ins is not None:
                self.blocks[cur].append(ins)
        self.entry = self.order[0]
        self._loops()
        self._parsed = True
        return self
    def succs(self, b):
        t = self.blocks[b][-1]
        if t.op == 'br':
            return [t.a[-1]] if len(t.a) == 1 else [t.a[1], t.a[2]]
        if t.op == 'switch':
            return [t.a[1]] + [l for _, l in t.a[2]]
        if t.op == 'invoke':
            return [t.a['normal']]
        return []
    def _loops(self):
        # dominators (simple iterative), natural loops
        preds = {b: [] for b in self.order}
        reach = []
        seen = set()
        st = [self.entry]
        while st:
            b = st.pop()
            if b in seen:
                continue
            seen.add(b)
            reach.append(b)
            for s in self.succs(b):
                st.append(s)
        for b in seen:
            for s in self.succs(b):
                if b not in preds[s]:
                    preds[s].append(b)
        # rpo
        order = []
        vis = set()
        def dfs(r):
            stack = [(r, iter(self.succs(r)))]
            vis.add(r)
            while stack:
                b, it = stack[-1]
                for s in it:
                    if s not in vis:
                        vis.add(s)
                        stack.append((s, iter(self.succs(s))))
                        break
                else:
                    order.append(b)
                    stack.pop()
        dfs(self.entry)
        rpo = order[::-1]
        dom = {b: None for b in rpo}
        dom[self.entry] = {self.entry}
        ch = True
        while ch:
            ch = False
            for b in rpo:
                if b == self.entry:
                    continue
                ds = [dom[p] for p in preds[b] if dom.get(p) is not None]
                nd = set.intersection(*ds) | {b} if ds else {b}
                if nd != dom[b]:
                    dom[b] = nd
                    ch = True
        self.loops = {}
        for b in rpo:
            for s in self.succs(b):
                if s in dom[b]:
                    body = self.loops.setdefault(s, {s})
                    stk = [b]
                    while stk:
                        x = stk.pop()
                        if x in body:
                            continue
                        body.add(x)
                        stk.extend(preds[x])
        self.rpo = rpo
        self.preds = preds

STRIP = re.compile(r'(, ![\w.]+ !\d+)+$')

def parse_instr(s, mod):
    if s.startswith('#dbg') or '@llvm.dbg.' in s or '@llvm.lifetime.' in s or '@llvm.experimental.noalias' in s:
        return None
    line = None
    m = re.search(r'!dbg !(\d+)', s)
    if m:
        line = int(m.group(1))
    s0 = s
    s = STRIP.sub('', s)
    toks = tokenize(s)
    p = P(toks, mod)
    res = None
    if len(toks) > 1 and toks[1] == '=':
        res = toks[0]
        p.i = 2
    op = p.next()
    while op in ('tail', 'musttail', 'notail'):
        op = p.next()
    I = lambda op, ty=None, a=None, vol=False, flags=(): Instr(op, res, ty, a, line, vol, flags, s)
    if op in ('add', 'sub', 'mul', 'shl', 'udiv', 'sdiv', 'urem', 'srem', 'lshr', 'ashr', 'and', 'or', 'xor', 'fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
        fl = []
        while p.peek() in ('nsw', 'nuw', 'exact', 'disjoint', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc'):
            fl.append(p.next())
        ty = p.type()
        a = p.value(ty)
        p.expect(',')
        b = p.value(ty)
        return I('bin', ty, (op, a, b), flags=tuple(fl))
    if op == 'fneg':
        ty = p.type()
        return I('fneg', ty, (p.value(ty),))
    if op in ('icmp', 'fcmp'):
        while p.peek() in ('fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'samesign'):
            p.next()
        pred = p.next()
        ty = p.type()
        a = p.value(ty)
        p.expect(',')
        b = p.value(ty)
        return I(op, ty, (pred, a, b))
    if op in ('zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast', 'fptrunc', 'fpext', 'fptoui', 'fptosi', 'uitofp', 'sitofp', 'addrspacecast'):
        while p.peek() in ('nneg', 'nuw', 'nsw'):
            p.next()
        st = p.type()
        v = p.value(st)
        p.expect('to')
        return I('cast', p.type(), (op, st, v))
    if op == 'alloca':
        p.eat('inalloca')
        ty = p.type()
        cnt = ('int', 1)
        ct = ('i', 32)
        while p.eat(','):
            if p.peek() == 'align':
                p.next(); p.next()
            else:
                ct = p.type()
                cnt = p.value(ct)
        return I('alloca', ty, (ct, cnt))
    if op == 'load':
        atomic = p.eat('atomic')
        vol = p.eat('volatile')
        ty = p.type()
        p.expect(',')
        pt = p.type()
        v = p.value(pt)
        return I('load', ty, (v,), vol, flags=('atomic',) if atomic else ())
    if op == 'store':
        atomic = p.eat('atomic')
        vol = p.eat('volatile')
        ty = p.type()
        v = p.value(ty)
        p.expect(',')
        pt = p.type()
        q = p.value(pt)
        return I('store', ty, (v, q), vol, flags=('atomic',) if atomic else ())
    if op == 'getelementptr':
        fl = []
        while p.peek() in ('inbounds', 'nuw', 'nusw'):
            fl.append(p.next())
        bt = p.type()
        p.expect(',')
        ops = []
        while True:
            ot = p.type()
            ops.append((ot, p.value(ot)))
            if not p.eat(','):
                break
        return I('gep', bt, ops, flags=tuple(fl))
    if op == 'br':
        ty = p.type()
        if ty == ('label',):
            return I('br', a=(p.next(),))
        c = p.value(ty)
        p.expect(',')
        p.type(); t = p.next()
        p.expect(',')
        p.type(); f = p.next()
        return I('br', a=(c, t, f))
    if op == 'switch':
        ty = p.type()
        v = p.value(ty)
        p.expect(',')
        p.type()
        d = p.next()
        p.expect('[')
        cs = []
        while not p.eat(']'):
            p.type()
            k = int(p.next())
            p.expect(',')
            p.type()
            cs.append((k, p.next()))
        return I('switch', ty, (v, d, cs))
    if op == 'ret':
        ty = p.type()
        if ty == ('void',):
            return I('ret', ty, None)
        return I('ret', ty, (p.value(ty),))
    if op == 'phi':
        ty = p.type()
        inc = []
        while True:
            p.expect('[')
            v = p.value(ty)
            p.expect(',')
            b = p.next()
            p.expect(']')
            inc.append((v, b))
            if not p.eat(','):
                break
        return I('phi', ty, inc)
    if op == 'select':
        ct = p.type(); c = p.value(ct)
        p.expect(',')
        ty = p.type(); a = p.value(ty)
        p.expect(',')
        p.type(); b = p.value(ty)
        return I('select', ty, (c, a, b))
    if op in ('call', 'invoke'):
        while p.peek() in ('fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'ccc', 'fastcc', 'coldcc'):
            p.next()
        p.skip_attrs()
        p.allow_fn = False
        ty = p.type()
        # possible function type
        if p.peek() == '(':
            p.skip_parens()
        p.skip_attrs()
        if p.peek() == 'asm':
            p.next()
            while p.peek() in ('sideeffect', 'alignstack', 'inteldialect'):
                p.next()
            a = p.next(); p.expect(','); c = p.next()
            callee = ('asm', a.strip('"'), c.strip('"'))
        else:
            t = p.peek()
            callee = p.value(('ptr',))
        p.expect('(')
        args = []
        if not p.eat(')'):
            while True:
                at = p.type()
                if at == ('metadata',):
                    d = 0
                    while not (d == 0 and p.peek() in (',', ')')):
                        x = p.next()
                        d += x == '('
                        d -= x == ')'
                    args.append((at, ('undef',)))
                else:
                    p.skip_attrs()
                    args.append((at, p.value(at)))
                if p.eat(')'):
                    break
                p.expect(',')
        d = {'callee': callee, 'args': args}
        if op == 'invoke':
            while p.peek() != 'to':
                p.next()
            p.next()
            p.type()
            d['normal'] = p.next()
        return I(op, ty, d)
    if op in ('unreachable',):
        return I(op)
    if op == 'resume':
        return I('resume')
    if op == 'landingpad':
        return I('landingpad')
    if op == 'extractvalue':
        ty, v = p.tval()
        idx = []
        while p.eat(','):
            idx.append(int(p.next()))
        return I(op, ty, (v, idx))
    if op == 'insertvalue':
        ty, v = p.tval()
        p.expect(',')
        et, e = p.tval()
        idx = []
        while p.eat(','):
            idx.append(int(p.next()))
        return I(op, ty, (v, et, e, idx))
    if op == 'atomicrmw':
        vol = p.eat('volatile')
        k = p.next()
        pt = p.type(); q = p.value(pt)
        p.expect(',')
        ty = p.type(); v = p.value(ty)
        return I(op, ty, (k, q, v), vol)
    if op == 'cmpxchg':
        p.eat('weak')
        vol = p.eat('volatile')
        pt = p.type(); q = p.value(pt)
        p.expect(',')
        ty = p.type(); c = p.value(ty)
        p.expect(',')
        p.type(); n = p.value(ty)
        return I(op, ty, (q, c, n), vol)
    if op == 'fence':
        return I(op, a=tuple(toks[p.i:]))
    if op == 'freeze':
        ty, v = p.tval()
        return I(op, ty, (v,))
    if op == 'va_arg':
        pt = p.type(); q = p.value(pt); p.expect(',')
        return I(op, p.type(), (q,))
    return I('unknown', a=(op, s))

class Module:
    def __init__(self, text, src):
        self.src = src
        self.types = {}
        self.funcs = {}
        self.globals = {}
        self.aliases = {}
        self._md = None
        self._layout = {}
        lines = text.split('\n')
        self.mdlines = {}
        i = 0
        n = len(lines)
        while i < n:
            l = lines[i]
            c = l[:1]
            if c == '%':
                nm, d = l.split(' = type ', 1)
                self.types[nm] = d
            elif c == '@':
                m = re.match(r'(@"[^"]*"|@[-\w.$]+) = (.*)', l)
                nm = unq(m.group(1))
                if ' alias ' in m.group(2)[:80]:
                    t = re.search(r'(@"[^"]*"|@[-\w.$]+)', m.group(2))
                    self.aliases[nm] = unq(t.group(1))
                else:
                    self.globals[nm] = m.group(2)
            elif c == 'd' and l.startswith('define'):
                m = re.search(r'(@"[^"]*"|@[-\w.$]+)\(', l)
                nm = unq(m.group(1))
                j = i + 1
                while lines[j] != '}':
                    j += 1
                self.funcs[nm] = Func(nm, self, l, lines[i + 1:j], i)
                i = j
            elif c == '!':
                m = re.match(r'!(\d+) = (.*)', l)
                if m:
                    self.mdlines[int(m.group(1))] = m.group(2)
            i += 1
    def resolve(self, ty):
        while ty[0] == 'named':
            d = self.types[ty[1]]
            if isinstance(d, str):
                d = P(tokenize(d), self).type()
                self.types[ty[1]] = d
            ty = d
        return ty
    def sizeof(self, ty):
        return self.layout(ty)[0]
    def alignof(self, ty):
        return self.layout(ty)[1]
    def layout(self, ty):
        """(size, align, offsets)"""
        r = self._layout.get(ty)
        if r:
            return r
        k = ty[0]
        if k == 'named':
            r = self.layout(self.resolve(ty))
        elif k == 'i':
            b = (ty[1] + 7) // 8
            s = 1
            while s < b:
                s *= 2
            r = (s, min(s, 16), None)
        elif k == 'ptr':
            r = (8, 8, None)
        elif k == 'f':
            r = {32: (4, 4, None), 64: (8, 8, None), 80: (16, 16, None), 128: (16, 16, None), 16: (2, 2, None)}[ty[1]]
        elif k == 'array':
            s, a, _ = self.layout(ty[2])
            r = (s * ty[1], a, None)
        elif k == 'vec':
            s, a, _ = self.layout(ty[2])
            r = (s * ty[1], s * ty[1] or 1, None)
        elif k == 'struct':
            off = 0
            al = 1
            offs = []
            for e in ty[1]:
                s, a, _ = self.layout(e)
                if ty[2]:
                    a = 1
                off = (off + a - 1) // a * a
                offs.append(off)
                off += s
                al = max(al, a)
            r = ((off + al - 1) // al * al, al, offs)
        else:
            r = (1, 1, None)
        self._layout[ty] = r
        return r
    # ---- debug metadata: field offsets -------------------------------------------------
    def md(self, n):
        return self.mdlines.get(n, '')
    def srcloc(self, n):
        """'file:line' for a !dbg node"""
        try:
            s = self.md(n)
            m = re.search(r'DILocation\(line: (\d+)', s)
            sc = re.search(r'scope: !(\d+)', s)
            k = int(sc.group(1))
            for _ in range(20):
                t = self.md(k)
                f = re.search(r'file: !(\d+)', t)
                if f:
                    fn = re.search(r'filename: "([^"]*)"', self.md(int(f.group(1)))).group(1)
                    return '%s:%s' % (fn.replace(REPO + '/', ''), m.group(1))
                k = int(re.search(r'scope: !(\d+)', t).group(1))
            return '?:' + m.group(1)
        except Exception:
            return '?'
    def _scan_md(self):
        if self._md is not None:
            return self._md
        comp = {}
        for n, s in self.mdlines.items():
            if 'DICompositeType(tag: DW_TAG_structure_type' in s or 'DICompositeType(tag: DW_TAG_class_type' in s or 'DICompositeType(tag: DW_TAG_union_type' in s:
                if 'elements:' not in s:
                    continue
                nm = re.search(r'name: "([^"]*)"', s)
                comp.setdefault(nm.group(1) if nm else '', []).append(n)
        self._md = comp
        return comp
    def _qual(self, n):
        s = self.md(n)
        nm = re.search(r'name: "([^"]*)"', s)
        nm = nm.group(1) if nm else ''
        sc = re.search(r'scope: !(\d+)', s)
        if sc:
            t = self.md(int(sc.group(1)))
            if 'DINamespace' in t or 'DICompositeType' in t:
                return self._qual(int(sc.group(1))) + '::' + nm
        return nm
    def find_class(self, qual):
        comp = self._scan_md()
        base = qual.split('::')[-1] if '<' not in qual else qual[qual.index('hogl'):]
        c = [n for n in comp.get(qual.split('::')[-1], []) if self._qual(n) == qual]
        if not c:
            raise KeyError('no class ' + qual)
        return c[0]
    def fields(self, qual):
        """{field: (offset_bytes, size_bytes, type_md)} including inherited ones"""
        key = ('F', qual)
        if key in self._layout:
            return self._layout[key]
        r = self._fields_md(self.find_class(qual))
        self._layout[key] = r
        return r
    def _fields_md(self, n, base=0):
        s = self.md(n)
        el = re.search(r'elements: !(\d+)', s)
        out = {}
        for e in re.findall(r'!(\d+)', self.md(int(el.group(1)))):
            t = self.md(int(e))
            if 'DW_TAG_member' in t and 'DIFlagStaticMember' not in t:
                nm = re.search(r'name: "([^"]*)"', t)
                o = re.search(r'offset: (\d+)', t)
                sz = re.search(r'size: (\d+)', t)
                bt = re.search(r'baseType: !(\d+)', t)
                o = int(o.group(1)) if o else 0
                if nm:
                    out[nm.group(1)] = (base + o // 8, int(sz.group(1)) // 8 if sz else 0, int(bt.group(1)) if bt else None)
                else:  # anonymous union/struct
                    out.update(self._fields_md(int(bt.group(1)), base + o // 8))
            elif 'DW_TAG_inheritance' in t:
                o = re.search(r'offset: (\d+)', t)
                bt = int(re.search(r'baseType: !(\d+)', t).group(1))
                for k, v in self._fields_md(bt, base + (int(o.group(1)) // 8 if o else 0)).items():
                    out.setdefault(k, v)
        return out
    def class_size(self, qual):
        return int(re.search(r'size: (\d+)', self.md(self.find_class(qual))).group(1)) // 8

_dem = {}
def demangle_all(names):
    names = [n for n in names if n not in _dem]
    if names:
        r = subprocess.run(['c++filt'], input='\n'.join(names) + '\n', capture_output=True, text=True)
        for a, b in zip(names, r.stdout.split('\n')):
            _dem[a] = b
def demangle(n):
    if n not in _dem:
        demangle_all([n])
    return _dem[n]
