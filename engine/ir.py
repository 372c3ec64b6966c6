"""Parser for textual LLVM IR (LLVM 18, opaque pointers)."""
import re

TOK = re.compile(r'''
  (?P<ws>\s+)|(?P<cstr>c"(?:[^"\\]|\\.)*")|(?P<gq>[@%$]"[^"]*")|(?P<g>[@%][-a-zA-Z$._0-9]+)|
  (?P<str>"[^"]*")|(?P<meta>![-a-zA-Z$._0-9]*)|(?P<num>-?\d+\.\d+(?:[eE][-+]?\d+)?|-?\d+|0x[0-9A-Fa-fKLMH]+)|
  (?P<word>[a-zA-Z_$.][-a-zA-Z$._0-9]*)|(?P<attr>\#\d+)|(?P<dots>\.\.\.)|(?P<p>[(){}\[\]<>,=*:|])
''', re.X)
HEX = re.compile(r'0x[0-9A-Fa-fKLMH]+')


def tokenize(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        if s[i] == ';':
            j = s.find('\n', i)
            i = n if j < 0 else j
            continue
        if s.startswith('0x', i):
            m = HEX.match(s, i)
            out.append(m.group())
            i = m.end()
            continue
        m = TOK.match(s, i)
        if not m:
            raise SyntaxError('tok: ' + s[i:i + 60])
        i = m.end()
        if m.lastgroup == 'ws':
            continue
        t = m.group()
        if m.lastgroup == 'gq':
            t = t[0] + t[2:-1]
        out.append(t)
    return out


# types are tuples: ('int',bits) ('double',) ('float',) ('ptr',) ('void',) ('array',n,t) ('struct',(t..),packed)
# ('named',name) ('vec',n,t) ('func',..)
class Parser:
    def __init__(self, toks, mod):
        self.t = toks
        self.i = 0
        self.mod = mod

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else None

    def next(self):
        v = self.t[self.i]
        self.i += 1
        return v

    def accept(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def expect(self, x):
        v = self.next()
        if v != x:
            raise SyntaxError('expected %s got %s in %s' % (x, v, ' '.join(self.t[max(0, self.i - 8):self.i + 8])))

    def type(self):
        t = self.base_type()
        while True:
            if self.peek() == '*':
                self.next()
                t = ('ptr',)
            elif self.peek() == '(':
                # function type
                self.next()
                args = []
                while not self.accept(')'):
                    if self.accept('...'):
                        args.append('...')
                    else:
                        args.append(self.type())
                    self.accept(',')
                t = ('func', t, tuple(args))
            else:
                return t

    def base_type(self):
        x = self.next()
        if x == 'ptr':
            if self.peek() == 'addrspace':
                self.i += 4
            return ('ptr',)
        if re.match(r'i\d+$', x):
            return ('int', int(x[1:]))
        if x in ('double', 'float', 'void', 'label', 'metadata', 'token', 'x86_fp80', 'opaque', 'half'):
            return (x,)
        if x == '[':
            n = int(self.next())
            self.expect('x')
            t = self.type()
            self.expect(']')
            return ('array', n, t)
        if x == '<':
            if self.peek() == '{':
                self.next()
                ts = self.tlist('}')
                self.expect('>')
                return ('struct', ts, True)
            n = int(self.next())
            self.expect('x')
            t = self.type()
            self.expect('>')
            return ('vec', n, t)
        if x == '{':
            return ('struct', self.tlist('}'), False)
        if x[0] == '%':
            return ('named', x[1:])
        raise SyntaxError('type: ' + x + ' in ' + ' '.join(self.t[max(0, self.i - 8):self.i + 8]))

    def tlist(self, end):
        ts = []
        while not self.accept(end):
            ts.append(self.type())
            self.accept(',')
        return tuple(ts)

    ATTRW = {'noundef', 'nonnull', 'noalias', 'nocapture', 'readonly', 'writeonly', 'returned', 'zeroext', 'signext',
             'inreg', 'immarg', 'nofree', 'readnone', 'allocptr', 'nest', 'noreturn', 'nounwind', 'swiftself', 'inalloca', 'dead_on_unwind', 'writable', 'inrange', 'allocalign'}

    def attrs(self):
        while True:
            p = self.peek()
            if p in self.ATTRW:
                self.next()
            elif p in ('align',):
                self.next()
                if self.accept('('):
                    self.next()
                    self.expect(')')
                else:
                    self.next()
            elif p in ('dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'byref', 'elementtype', 'allocsize', 'memory', 'range', 'nofpclass'):
                self.next()
                if self.accept('('):
                    d = 1
                    while d:
                        y = self.next()
                        d += (y == '(') - (y == ')')
            elif p is not None and p.startswith('"'):
                self.next()
                if self.accept('='):
                    self.next()
            else:
                return

    def value(self, ty):
        """operand -> ('reg',name) ('glob',name) ('int',v) ('fp',str) ('null',) ('undef',) ('zero',) ('agg',[(ty,v)..]) ('cstr',bytes) ('ce',op,...)"""
        x = self.next()
        if x[0] == '%':
            return ('reg', x[1:])
        if x[0] == '@':
            return ('glob', x[1:])
        if x == 'null':
            return ('null',)
        if x in ('undef', 'poison'):
            return ('undef',)
        if x == 'zeroinitializer':
            return ('zero',)
        if x == 'true':
            return ('int', 1)
        if x == 'false':
            return ('int', 0)
        if x == 'none':
            return ('undef',)
        if ty[0] in ('double', 'float', 'x86_fp80', 'half'):
            return ('fp', x)
        if x[0] == 'c' and len(x) > 1 and x[1] == '"':
            return ('cstr', cstr(x[2:-1]))
        if x in ('[', '{', '<'):
            packed = False
            if x == '<' and self.peek() == '{':
                self.next()
                packed = True
                x = '{'
            end = {'[': ']', '{': '}', '<': '>'}[x]
            out = []
            while not self.accept(end):
                t = self.type()
                out.append((t, self.value(t)))
                self.accept(',')
            if packed:
                self.expect('>')
            return ('agg', out)
        if x in ('getelementptr',):
            self.accept('inbounds')
            while self.peek() in ('nuw', 'nusw', 'inrange'):
                self.next()
            self.expect('(')
            st = self.type()
            ops = []
            while self.accept(','):
                self.accept('inrange')
                t = self.type()
                ops.append((t, self.value(t)))
            self.expect(')')
            return ('ce', 'gep', st, ops)
        if x in ('bitcast', 'inttoptr', 'ptrtoint', 'addrspacecast', 'trunc', 'zext', 'sext'):
            self.expect('(')
            t = self.type()
            v = self.value(t)
            self.expect('to')
            t2 = self.type()
            self.expect(')')
            return ('ce', x, (t, v), t2)
        if x in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'icmp'):
            while self.peek() != '(':
                self.next()
            d = 0
            while True:
                y = self.next()
                d += (y == '(') - (y == ')')
                if d == 0:
                    break
            return ('ce', 'opaque', x)
        if x == 'blockaddress' or x == 'dso_local_equivalent' or x == 'no_cfi':
            return ('ce', 'opaque', x)
        if re.match(r'-?\d+$', x):
            return ('int', int(x))
        if x.startswith('0x'):
            return ('fp', x)
        raise SyntaxError('value: %s %s' % (x, ' '.join(self.t[max(0, self.i - 10):self.i + 8])))

    def tv(self):
        t = self.type()
        self.attrs()
        return (t, self.value(t))


def cstr(s):
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i + 1] == '\\':
                out.append(92)
                i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16))
                i += 3
        else:
            out.append(ord(s[i]))
            i += 1
    return bytes(out)


class Inst:
    __slots__ = ('op', 'dst', 'ty', 'a', 'text', 'line')

    def __init__(self, op, dst, ty, a, text):
        self.op, self.dst, self.ty, self.a, self.text = op, dst, ty, a, text
        self.line = None


class Function:
    def __init__(self, name, mod, header, body):
        self.name, self.mod, self.header, self.body = name, mod, header, body
        self.parsed = False

    def parse(self):
        if self.parsed:
            return self
        self.parsed = True
        p = Parser(tokenize(self.header), self.mod)
        # skip to return type: words before a type
        p.expect('define')
        while True:
            x = p.peek()
            if x in ('linkonce_odr', 'weak_odr', 'internal', 'private', 'dso_local', 'hidden', 'external', 'weak', 'linkonce', 'available_externally', 'unnamed_addr', 'local_unnamed_addr', 'fastcc', 'protected', 'default', 'noalias', 'ccc', 'coldcc', 'common', 'appending'):
                p.next()
            elif x in Parser.ATTRW or x in ('align', 'dereferenceable', 'dereferenceable_or_null', 'range', 'nofpclass'):
                p.attrs()
            else:
                break
        self.ret = p.type()
        p.next()
        p.expect('(')
        self.params = []
        while not p.accept(')'):
            if p.accept('...'):
                continue
            t = p.type()
            p.attrs()
            nm = None
            if p.peek() and p.peek()[0] == '%':
                nm = p.next()[1:]
            self.params.append((nm, t))
            p.accept(',')
        # number unnamed params
        self.blocks = {}
        self.order = []
        cur = None
        entry_n = sum(1 for nm, _ in self.params if nm is None or nm.isdigit())
        lines = self.body
        i = 0
        while i < len(lines):
            ln = lines[i]
            i += 1
            s = ln.strip()
            if not s or s.startswith(';'):
                continue
            m = re.match(r'^([-a-zA-Z$._0-9]+|"[^"]*"):', ln)
            if m:
                cur = m.group(1).strip('"')
                self.blocks[cur] = []
                self.order.append(cur)
                continue
            if cur is None:
                cur = str(entry_n)
                self.blocks[cur] = []
                self.order.append(cur)
            if re.match(r'switch\b', s) and ']' not in s:
                while ']' not in lines[i]:
                    s += ' ' + lines[i].strip()
                    i += 1
                s += ' ' + lines[i].strip()
                i += 1
            if (' landingpad ' in s or ' invoke ' in s or s.startswith('invoke')) :
                while i < len(lines) and re.match(r'^\s+(cleanup|catch|filter|to label)', lines[i]):
                    s += ' ' + lines[i].strip()
                    i += 1
            self.blocks[cur].append(s)
        for b in self.order:
            self.blocks[b] = [parse_inst(x, self.mod) for x in self.blocks[b]]
        self.entry = self.order[0]
        self._cfg()
        return self

    def succs(self, b):
        t = self.blocks[b][-1]
        if t.op == 'br':
            return list(dict.fromkeys(t.a[1:] if len(t.a) == 3 else t.a))
        if t.op == 'switch':
            return list(dict.fromkeys([t.a[1]] + [x[1] for x in t.a[2]]))
        if t.op == 'invoke':
            return [t.a[2], t.a[3]]
        return []

    def _cfg(self):
        order = self.order
        succ = {b: self.succs(b) for b in order}
        # reachable
        seen = []
        st = [self.entry]
        vis = {self.entry}
        post = []

        def dfs(root):
            stack = [(root, iter(succ[root]))]
            while stack:
                b, it = stack[-1]
                for s in it:
                    if s not in vis:
                        vis.add(s)
                        stack.append((s, iter(succ[s])))
                        break
                else:
                    post.append(b)
                    stack.pop()
        dfs(self.entry)
        rpo = post[::-1]
        pred = {b: [] for b in rpo}
        for b in rpo:
            for s in succ[b]:
                pred[s].append(b)
        idx = {b: i for i, b in enumerate(rpo)}
        idom = {self.entry: self.entry}
        ch = True
        while ch:
            ch = False
            for b in rpo[1:]:
                nd = None
                for p in pred[b]:
                    if p in idom:
                        if nd is None:
                            nd = p
                        else:
                            x, y = p, nd
                            while x != y:
                                while idx[x] > idx[y]:
                                    x = idom[x]
                                while idx[y] > idx[x]:
                                    y = idom[y]
                            nd = x
                if idom.get(b) != nd:
                    idom[b] = nd
                    ch = True

        def dom(a, b):
            while True:
                if a == b:
                    return True
                if b == self.entry:
                    return False
                b = idom[b]
        self.loops = {}
        for b in rpo:
            for s in succ[b]:
                if dom(s, b):
                    body = self.loops.setdefault(s, set([s]))
                    st = [b]
                    while st:
                        x = st.pop()
                        if x not in body:
                            body.add(x)
                            st.extend(pred[x])
        self.succ = succ


SKIP_FLAGS = {'nsw', 'nuw', 'exact', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'fast', 'inbounds', 'volatile', 'disjoint', 'nneg', 'nusw'}


def parse_inst(s, mod):
    toks = tokenize(s)
    dst = None
    p = Parser(toks, mod)
    if len(toks) > 1 and toks[1] == '=' and toks[0][0] == '%':
        dst = toks[0][1:]
        p.i = 2
    op = p.next()
    while op in ('tail', 'musttail', 'notail'):
        op = p.next()
    flags = set()
    if op not in ('call', 'invoke'):
        while p.peek() in SKIP_FLAGS:
            flags.add(p.next())
    I = lambda ty, a: Inst(op, dst, ty, a, s)
    if op == 'alloca':
        p.accept('inalloca')
        t = p.type()
        n = None
        if p.accept(','):
            if p.peek() != 'align':
                n = p.tv()
        return I(t, n)
    if op == 'load':
        t = p.type()
        p.expect(',')
        return I(t, p.tv())
    if op == 'store':
        v = p.tv()
        p.expect(',')
        return I(v[0], (v, p.tv()))
    if op == 'getelementptr':
        t = p.type()
        ops = []
        while p.accept(','):
            if p.peek()[0] == '!':
                break
            ops.append(p.tv())
        return I(t, ops)
    if op in ('add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor', 'fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
        t = p.type()
        a = p.value(t)
        p.expect(',')
        b = p.value(t)
        return I(t, (a, b, flags))
    if op == 'fneg':
        t = p.type()
        return I(t, (p.value(t),))
    if op in ('icmp', 'fcmp'):
        pr = p.next()
        t = p.type()
        a = p.value(t)
        p.expect(',')
        b = p.value(t)
        return I(t, (pr, a, b))
    if op in ('sext', 'zext', 'trunc', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'fpext', 'fptrunc', 'bitcast', 'ptrtoint', 'inttoptr', 'addrspacecast'):
        v = p.tv()
        p.expect('to')
        return I(p.type(), v)
    if op == 'br':
        if p.peek() == 'label':
            p.next()
            return I(None, (p.next()[1:],))
        t, c = p.tv()
        p.expect(',')
        p.expect('label')
        x = p.next()[1:]
        p.expect(',')
        p.expect('label')
        y = p.next()[1:]
        return I(None, (c, x, y))
    if op == 'switch':
        v = p.tv()
        p.expect(',')
        p.expect('label')
        d = p.next()[1:]
        p.expect('[')
        cases = []
        while not p.accept(']'):
            c = p.tv()
            p.expect(',')
            p.expect('label')
            cases.append((c[1][1], p.next()[1:]))
        return I(None, (v, d, cases))
    if op == 'ret':
        if p.peek() == 'void':
            return I(('void',), None)
        v = p.tv()
        return I(v[0], v)
    if op == 'phi':
        t = p.type()
        inc = []
        while True:
            p.expect('[')
            v = p.value(t)
            p.expect(',')
            b = p.next()[1:]
            p.expect(']')
            inc.append((v, b))
            if not p.accept(','):
                break
            if p.peek() is None or p.peek()[0] == '!':
                break
        return I(t, inc)
    if op == 'select':
        c = p.tv()
        p.expect(',')
        a = p.tv()
        p.expect(',')
        b = p.tv()
        return I(a[0], (c, a, b))
    if op in ('call', 'invoke'):
        while p.peek() in SKIP_FLAGS or p.peek() in ('fastcc', 'ccc', 'coldcc'):
            p.next()
        p.attrs()
        t = p.base_type()
        while p.peek() == '*':
            p.next()
        p.attrs()
        if p.peek() == '(':  # function type given
            d = 0
            while True:
                y = p.next()
                d += (y == '(') - (y == ')')
                if d == 0:
                    break
        callee = p.value(('ptr',))
        p.expect('(')
        args = []
        while not p.accept(')'):
            at = p.type()
            p.attrs()
            if at == ('metadata',):
                d = 0
                while not (d == 0 and p.peek() in (',', ')')):
                    y = p.next()
                    d += (y == '(') - (y == ')')
                args.append((at, ('undef',)))
            else:
                args.append((at, p.value(at)))
            p.accept(',')
        if op == 'invoke':
            while p.peek() != 'to':
                p.next()
            p.next()
            p.expect('label')
            a = p.next()[1:]
            p.expect('unwind')
            p.expect('label')
            b = p.next()[1:]
            return I(t, (callee, args, a, b))
        return I(t, (callee, args))
    if op == 'extractvalue':
        v = p.tv()
        idx = []
        while p.accept(','):
            idx.append(int(p.next()))
        return I(None, (v, idx))
    if op == 'insertvalue':
        v = p.tv()
        p.expect(',')
        w = p.tv()
        idx = []
        while p.accept(','):
            idx.append(int(p.next()))
        return I(v[0], (v, w, idx))
    if op in ('landingpad',):
        return I(p.type(), None)
    if op in ('unreachable', 'resume', 'fence'):
        return I(None, None)
    return I(None, None)


class Module:
    def __init__(self, text):
        self.types = {}
        self.globals = {}
        self.funcs = {}
        self.decls = set()
        self.ctors = []
        lines = text.split('\n')
        i = 0
        n = len(lines)
        while i < n:
            ln = lines[i]
            i += 1
            if not ln or ln[0] == ';':
                continue
            if ln[0] == '%' and ' = type ' in ln:
                nm, rest = ln.split(' = type ', 1)
                self.types[nm[1:].strip('"')] = rest
            elif ln[0] == '@':
                nm, rest = re.match(r'@("[^"]*"|[-a-zA-Z$._0-9]+) = (.*)$', ln).groups()
                nm = nm.strip('"')
                if nm == 'llvm.global_ctors':
                    self.ctors = re.findall(r'\{ i32 (\d+), ptr @([-a-zA-Z$._0-9]+)', rest)
                self.globals[nm] = rest
            elif ln.startswith('define '):
                body = []
                m = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', ln)
                nm = m.group(1).strip('"')
                while lines[i] != '}':
                    body.append(lines[i])
                    i += 1
                i += 1
                hdr = ln[:ln.rindex('{')]
                # cut trailing attributes after the parameter list
                hdr = cut_header(hdr)
                self.funcs[nm] = Function(nm, self, hdr, body)
            elif ln.startswith('declare '):
                m = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', ln)
                self.decls.add(m.group(1).strip('"'))
        for nm, rest in list(self.globals.items()):
            m = re.search(r'\balias\b.*, ptr @("[^"]*"|[-a-zA-Z$._0-9]+)$', rest)
            if m and m.group(1).strip('"') in self.funcs:
                self.funcs[nm] = self.funcs[m.group(1).strip('"')]
                del self.globals[nm]
        self._tcache = {}
        self._lay = {}

    def named(self, nm):
        t = self._tcache.get(nm)
        if t is None:
            t = Parser(tokenize(self.types[nm]), self).type()
            self._tcache[nm] = t
        return t

    def resolve(self, t):
        while t[0] == 'named':
            t = self.named(t[1])
        return t

    def size_align(self, t):
        r = self._lay.get(t)
        if r is None:
            r = self._lay[t] = self._sa(t)
        return r

    def _sa(self, t):
        k = t[0]
        if k == 'int':
            b = max(1, (t[1] + 7) // 8)
            a = 1
            while a < b:
                a *= 2
            return a, min(a, 16)
        if k == 'double' or k == 'ptr':
            return 8, 8
        if k == 'float':
            return 4, 4
        if k == 'x86_fp80':
            return 16, 16
        if k == 'array':
            s, a = self.size_align(t[2])
            return s * t[1], a
        if k == 'vec':
            s, a = self.size_align(t[2])
            return s * t[1], s * t[1]
        if k == 'named':
            return self.size_align(self.named(t[1]))
        if k == 'struct':
            off = 0
            al = 1
            for f in t[1]:
                s, a = self.size_align(f)
                if t[2]:
                    a = 1
                off = (off + a - 1) // a * a + s
                al = max(al, a)
            return (off + al - 1) // al * al, al
        if k == 'opaque':
            return 8, 8
        raise SyntaxError('size of %r' % (t,))

    def size(self, t):
        return self.size_align(t)[0]

    def field(self, t, n):
        t = self.resolve(t)
        off = 0
        for i, f in enumerate(t[1]):
            s, a = self.size_align(f)
            if t[2]:
                a = 1
            off = (off + a - 1) // a * a
            if i == n:
                return off, f
            off += s
        raise IndexError

    def global_init(self, nm):
        """(type, value) or (type, None) for external; and flag constant"""
        rest = self.globals[nm]
        toks = tokenize(rest)
        p = Parser(toks, self)
        ext = False
        const = False
        while True:
            x = p.peek()
            if x in ('global', 'constant'):
                const = x == 'constant'
                p.next()
                break
            if x in ('external', 'extern_weak'):
                ext = True
            if x in ('alias', 'ifunc'):
                return None, None, False
            if x == 'comdat' or x == 'thread_local':
                pass
            p.next()
        t = p.type()
        v = None
        if not ext:
            v = p.value(t)
        return t, v, const


def cut_header(h):
    # keep up to the matching ')' of the parameter list
    m = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', h)
    i = m.end()
    d = 1
    while d:
        c = h[i]
        if c == '"':
            i = h.index('"', i + 1)
        d += (c == '(') - (c == ')')
        i += 1
    return h[:i]
