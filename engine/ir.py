"""Parser for textual LLVM IR (clang 18, opaque pointers) as emitted at -O0 + mem2reg.

Function bodies are parsed lazily.  Types are tuples:
  ('int', bits) ('ptr',) ('float',) ('double',) ('x86_fp80',) ('void',)
  ('array', n, ty) ('struct', (tys), packed) ('named', name) ('vector', n, ty)
  ('func',) ('label',) ('metadata',)
"""
import re

TOK = re.compile(r'''
   \s+
 | (?P<str>c?"(?:[^"\\]|\\[0-9A-Fa-f]{2}|\\\\)*")
 | (?P<loc>%(?:"[^"]*"|[-\w.$]+))
 | (?P<glob>@(?:"[^"]*"|[-\w.$]+))
 | (?P<meta>!(?:"[^"]*"|[-\w.]+)?)
 | (?P<attr>\#\d+)
 | (?P<comdat>\$(?:"[^"]*"|[-\w.$]+))
 | (?P<num>-?\d+(?:\.\d+(?:[eE][-+]?\d+)?)?|0x[KLMHR]?[0-9A-Fa-f]+)
 | (?P<word>[A-Za-z_][\w.]*:?)
 | (?P<dots>\.\.\.)
 | (?P<punct>[()\[\]{}<>,=*|])
''', re.X)
HEX = re.compile(r'0x[KLMHR]?[0-9A-Fa-f]+')


def tokenize(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        if s[i] == ';':
            break
        m = HEX.match(s, i)
        if m:
            out.append(m.group())
            i = m.end()
            continue
        m = TOK.match(s, i)
        if not m:
            raise SyntaxError('IR token at: ' + s[i:i + 60])
        i = m.end()
        if m.lastgroup:
            out.append(m.group())
    return out


PARAM_ATTRS = {'noundef', 'nonnull', 'noalias', 'nocapture', 'readonly', 'writeonly', 'readnone', 'returned', 'signext',
               'zeroext', 'inreg', 'immarg', 'nofree', 'nest', 'swiftself', 'allocptr', 'dead_on_unwind', 'writable', 'inrange',
               'noext'}
PAREN_ATTRS = {'align', 'dereferenceable', 'dereferenceable_or_null', 'byval', 'sret', 'elementtype', 'preallocated',
               'inalloca', 'allocsize', 'nofpclass', 'range', 'initializes'}
FLAGS = {'nsw', 'nuw', 'exact', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'disjoint', 'nneg',
         'inbounds', 'volatile', 'atomic', 'tail', 'musttail', 'notail', 'samesign', 'trunc'}
CCS = {'ccc', 'fastcc', 'coldcc', 'cc'}
LINKAGE = {'dso_local', 'internal', 'private', 'external', 'linkonce_odr', 'linkonce', 'weak', 'weak_odr', 'available_externally',
           'hidden', 'protected', 'default', 'local_unnamed_addr', 'unnamed_addr', 'thread_local', 'common', 'appending',
           'extern_weak', 'dso_preemptable', 'externally_initialized'}


class P:
    def __init__(self, toks):
        self.t = toks
        self.i = 0

    def peek(self, k=0):
        j = self.i + k
        return self.t[j] if j < len(self.t) else None

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def accept(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def expect(self, x):
        y = self.next()
        if y != x:
            raise SyntaxError('expected %s got %s in %s' % (x, y, ' '.join(self.t)))

    # ---- types
    def type(self):
        t = self.next()
        if t == 'ptr':
            r = ('ptr',)
            if self.peek() == 'addrspace':
                self.next(); self.expect('('); self.next(); self.expect(')')
        elif t == 'void':
            r = ('void',)
        elif re.fullmatch(r'i\d+', t):
            r = ('int', int(t[1:]))
        elif t in ('double', 'float', 'x86_fp80', 'half', 'fp128', 'label', 'metadata', 'token'):
            r = (t,)
        elif t == '[':
            n = int(self.next()); self.expect('x')
            r = ('array', n, self.type()); self.expect(']')
        elif t == '{':
            fs = []
            while self.peek() != '}':
                fs.append(self.type())
                self.accept(',')
            self.expect('}')
            r = ('struct', tuple(fs), False)
        elif t == '<':
            if self.peek() == '{':
                self.next()
                fs = []
                while self.peek() != '}':
                    fs.append(self.type())
                    self.accept(',')
                self.expect('}'); self.expect('>')
                r = ('struct', tuple(fs), True)
            else:
                n = int(self.next()); self.expect('x')
                r = ('vector', n, self.type()); self.expect('>')
        elif t.startswith('%'):
            r = ('named', t)
        elif t == 'opaque':
            r = ('opaque',)
        else:
            raise SyntaxError('type? ' + t + ' in ' + ' '.join(self.t))
        while self.peek() == '(':   # function type
            self.next()
            depth = 1
            while depth:
                x = self.next()
                if x == '(':
                    depth += 1
                elif x == ')':
                    depth -= 1
            r = ('func', r)
        while self.peek() == '*':
            self.next()
            r = ('ptr',)
        return r

    def attrs(self):
        while True:
            t = self.peek()
            if t in PARAM_ATTRS:
                self.next()
            elif t in PAREN_ATTRS:
                self.next()
                if self.peek() == '(':
                    d = 0
                    while True:
                        x = self.next()
                        if x == '(':
                            d += 1
                        elif x == ')':
                            d -= 1
                            if d == 0:
                                break
                elif t == 'align':
                    self.next()
            elif t is not None and (t.startswith('#') or (t.startswith('"') and not t.startswith('c"'))):
                self.next()
                if self.peek() == '=':
                    self.next(); self.next()
            else:
                return

    # ---- values; returned as ('loc',name) ('glob',name) ('ci',int) ... with type
    def value(self, ty):
        t = self.next()
        if t.startswith('%'):
            return ('loc', t)
        if t.startswith('@'):
            return ('glob', t)
        if t == 'null':
            return ('null',)
        if t == 'true':
            return ('ci', 1)
        if t == 'false':
            return ('ci', 0)
        if t in ('undef', 'poison'):
            return ('undef',)
        if t == 'zeroinitializer':
            return ('zero',)
        if t == 'none':
            return ('undef',)
        if t.startswith('c"'):
            return ('str', t)
        if re.fullmatch(r'-?\d+', t):
            return ('ci', int(t))
        if t.startswith('0x') or re.fullmatch(r'-?\d+\.\d+.*', t):
            return ('cf', t)
        if t == '{' or t == '[' or t == '<':
            close = {'{': '}', '[': ']', '<': '>'}[t]
            if t == '<' and self.peek() == '{':
                self.next()
                vs = self._aggr('}')
                self.expect('>')
                return ('aggr', vs)
            vs = self._aggr(close)
            return ('aggr', vs)
        if t == 'getelementptr':
            while self.peek() in FLAGS or self.peek() in ('inrange',):
                self.next()
                if self.peek() == '(' and False:
                    pass
            self.expect('(')
            bt = self.type(); self.expect(',')
            ops = []
            while True:
                self.accept('inrange')
                ety = self.type()
                ops.append((ety, self.value(ety)))
                if not self.accept(','):
                    break
            self.expect(')')
            return ('cgep', bt, ops)
        if t in ('bitcast', 'inttoptr', 'ptrtoint', 'trunc', 'zext', 'sext', 'addrspacecast'):
            self.expect('(')
            fty = self.type(); v = self.value(fty); self.expect('to'); tty = self.type(); self.expect(')')
            return ('ccast', t, fty, v, tty)
        if t in ('sub', 'add', 'mul', 'and', 'or', 'xor', 'shl', 'lshr'):
            while self.peek() in FLAGS:
                self.next()
            self.expect('(')
            t1 = self.type(); v1 = self.value(t1); self.expect(','); t2 = self.type(); v2 = self.value(t2); self.expect(')')
            return ('cbin', t, t1, v1, v2)
        if t == 'blockaddress' or t == 'dso_local_equivalent' or t == 'no_cfi':
            raise SyntaxError('unsupported constant ' + t)
        if t == 'icmp':
            pred = self.next()
            self.expect('(')
            t1 = self.type(); v1 = self.value(t1); self.expect(','); t2 = self.type(); v2 = self.value(t2); self.expect(')')
            return ('cicmp', pred, t1, v1, v2)
        raise SyntaxError('value? ' + t + ' in ' + ' '.join(self.t))

    def _aggr(self, close):
        vs = []
        while self.peek() != close:
            ty = self.type()
            vs.append((ty, self.value(ty)))
            self.accept(',')
        self.expect(close)
        return vs

    def tv(self):
        ty = self.type()
        self.attrs()
        return ty, self.value(ty)


class Function:
    __slots__ = ('name', 'module', 'header', 'lines', 'params', 'ret', 'blocks', 'entry', 'file', 'line', 'linkage', 'vararg',
                 'dbg', 'parsed')

    def parse(self):
        if self.parsed:
            return
        self.parsed = True
        parse_body(self)


class Module:
    def __init__(self, path, text):
        self.path = path
        self.types = {}
        self.globals = {}
        self.funcs = {}
        self.decls = set()
        self.aliases = {}
        self.ctors = None
        self.md = {}
        self._sz = {}
        self._parse(text)

    def _parse(self, text):
        lines = text.split('\n')
        i = 0
        n = len(lines)
        while i < n:
            l = lines[i]
            if not l or l[0] in ';\n':
                i += 1
                continue
            if l[0] == '%':
                nm, rest = l.split(' = type ', 1)
                self.types[nm] = rest
            elif l[0] == '@':
                nm = TOK.match(l).group()
                a = re.search(r'= (?:[a-z_]+ )*alias .*, ptr (@"[^"]*"|@[-\w.$]+)', l)
                if a:
                    self.aliases[nm] = a.group(1)
                else:
                    self.globals[nm] = [l, None]
            elif l.startswith('define '):
                j = i + 1
                while lines[j] != '}':
                    j += 1
                self._func(l, lines[i + 1:j])
                i = j
            elif l.startswith('declare '):
                m = re.search(r'@("[^"]*"|[-\w.$]+)\(', l)
                self.decls.add('@' + m.group(1))
            elif l[0] == '!':
                k = l.split(' = ', 1)
                if len(k) == 2:
                    self.md[k[0]] = k[1]
            i += 1

    def _func(self, header, body):
        f = Function()
        f.module = self
        f.header = header
        f.lines = body
        f.parsed = False
        m = re.search(r'@("[^"]*"|[-\w.$]+)\(', header)
        f.name = m.group(1).strip('"')
        f.linkage = 'internal' if re.match(r'define (dso_local )?internal', header) or ' internal ' in header[:m.start()] else 'external'
        f.file = f.line = None
        d = re.search(r'!dbg (!\d+)', header)
        f.dbg = d.group(1) if d else None
        self.funcs['@' + m.group(1)] = f

    def locate(self, f):
        if f.file is None:
            f.file, f.line = '', 0
            if f.dbg and f.dbg in self.md:
                s = self.md[f.dbg]
                a = re.search(r'file: (!\d+)', s)
                b = re.search(r'line: (\d+)', s)
                if b:
                    f.line = int(b.group(1))
                if a:
                    g = re.search(r'filename: "([^"]*)", directory: "([^"]*)"', self.md.get(a.group(1), ''))
                    if g:
                        import os
                        f.file = os.path.normpath(os.path.join(g.group(2), g.group(1)))
        return f.file, f.line

    def resolve(self, ty):
        while ty[0] == 'named':
            d = self.types[ty[1]]
            if isinstance(d, str):
                d = P(tokenize(d)).type()
                self.types[ty[1]] = d
            ty = d
        return ty

    def size_align(self, ty):
        r = self._sz.get(ty)
        if r:
            return r
        t = self.resolve(ty)
        k = t[0]
        if k == 'int':
            b = t[1]
            s = (b + 7) // 8
            p = 1
            while p < s:
                p *= 2
            r = (p, min(p, 16))
        elif k == 'ptr' or k == 'double':
            r = (8, 8)
        elif k == 'float':
            r = (4, 4)
        elif k == 'x86_fp80':
            r = (16, 16)
        elif k == 'array':
            s, a = self.size_align(t[2])
            r = (s * t[1], a)
        elif k == 'vector':
            s, a = self.size_align(t[2])
            r = (s * t[1], s * t[1])
        elif k == 'struct':
            off = 0
            al = 1
            for f in t[1]:
                s, a = self.size_align(f)
                if t[2]:
                    a = 1
                off = (off + a - 1) // a * a
                off += s
                al = max(al, a)
            off = (off + al - 1) // al * al
            r = (off, al)
        elif k == 'func' or k == 'opaque':
            r = (0, 1)
        else:
            raise SyntaxError('size of ' + str(ty))
        self._sz[ty] = r
        return r

    def sizeof(self, ty):
        return self.size_align(ty)[0]

    def field(self, st, idx):
        """offset and type of field idx of struct type st (resolved)"""
        off = 0
        for i, f in enumerate(st[1]):
            s, a = self.size_align(f)
            if st[2]:
                a = 1
            off = (off + a - 1) // a * a
            if i == idx:
                return off, f
            off += s
        raise IndexError


def _order(s):
    """memory orders named in an instruction"""
    return re.findall(r'\b(unordered|monotonic|acquire|release|acq_rel|seq_cst)\b', s) or ['seq_cst']


def unescape(tok):
    s = tok[2:-1]
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i + 1] == '\\':
                out.append(92)
                i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16))
                i += 3
        else:
            out.append(ord(s[i]))
            i += 1
    return bytes(out)


def parse_body(f):
    # header: return type and params
    h = f.header
    p = P(tokenize(h))
    p.expect('define')
    while p.peek() in LINKAGE or p.peek() in CCS or (p.peek() or '').startswith('comdat'):
        x = p.next()
        if x == 'thread_local' and p.peek() == '(':
            while p.next() != ')':
                pass
    p.attrs()
    f.ret = p.type()
    p.next()  # name
    p.expect('(')
    f.params = []
    f.vararg = False
    while p.peek() != ')':
        if p.accept('...'):
            f.vararg = True
            continue
        ty = p.type()
        p.attrs()
        nm = None
        if p.peek() and p.peek().startswith('%'):
            nm = p.next()
        f.params.append((ty, nm))
        p.accept(',')
    # implicit names
    k = 0
    names = []
    for ty, nm in f.params:
        if nm is None:
            nm = '%' + str(k)
            k += 1
        elif re.fullmatch(r'%\d+', nm):
            k = int(nm[1:]) + 1
        names.append((ty, nm))
    f.params = names
    # join lines
    lines = []
    for l in f.lines:
        s = l.strip()
        if not s or s[0] == ';':
            continue
        if lines and not re.match(r'^("?[-\w.$]+"?):', l):
            prev = lines[-1]
            if prev[1] or s.startswith(('to label', 'catch ', 'cleanup', 'filter ')):
                prev[0] += ' ' + s
                if prev[1] and s.startswith(']'):
                    prev[1] = False
                continue
        opened = s.startswith('switch ') and not s.rstrip().endswith(']') and ']' not in s.split('[', 1)[1]
        lines.append([s, opened])
    f.blocks = {}
    cur = None
    first = True
    for s, _ in lines:
        m = re.match(r'^("[^"]*"|[-\w.$]+):(\s*;.*)?$', s)
        if m:
            cur = '%' + m.group(1)
            f.blocks[cur] = []
            if first:
                f.entry = cur
                first = False
            continue
        if first:
            cur = '%' + str(k)
            f.blocks[cur] = []
            f.entry = cur
            first = False
        f.blocks[cur].append(parse_instr(s))


def parse_instr(s):
    """-> (op, dest, payload...)"""
    j = s.find(', !dbg')
    if j >= 0:
        s = s[:j]
    toks = tokenize(s)
    # drop trailing metadata
    for q in range(len(toks) - 1, -1, -1):
        if toks[q].startswith('!') and q > 0 and toks[q - 1] == ',':
            toks = toks[:q - 1]
    # "!srcloc !5" style leaves tokens; cut at first ", !"
    p = P(toks)
    dest = None
    if p.peek().startswith('%') and p.peek(1) == '=':
        dest = p.next()
        p.next()
    op = p.next()
    if op in ('tail', 'musttail', 'notail'):
        op = p.next()
    if op == 'alloca':
        p.accept('inalloca')
        ty = p.type()
        cnt = None
        if p.accept(','):
            if p.peek() != 'align':
                cnt = p.tv()
        return ('alloca', dest, ty, cnt)
    if op == 'load':
        while p.peek() in ('volatile', 'atomic'):
            p.next()
        ty = p.type(); p.expect(',')
        _, ptr = p.tv()
        at = _order(s)[-1] if ' atomic ' in s else False
        return ('load', dest, ty, ptr, at)
    if op == 'store':
        while p.peek() in ('volatile', 'atomic'):
            p.next()
        ty, v = p.tv(); p.expect(',')
        _, ptr = p.tv()
        at = _order(s)[-1] if ' atomic ' in s else False
        return ('store', None, ty, v, ptr, at)
    if op == 'getelementptr':
        while p.peek() in FLAGS:
            p.next()
        bt = p.type(); p.expect(',')
        _, base = p.tv()
        idx = []
        while p.accept(','):
            idx.append(p.tv())
        return ('gep', dest, bt, base, idx)
    if op in ('call', 'invoke'):
        while p.peek() in FLAGS or p.peek() in CCS:
            p.next()
        p.attrs()
        rt = p.type()
        if rt[0] == 'func':
            rt = rt[1]
        if p.peek() == 'asm':
            return ('asm', dest, s)
        callee = p.value(('ptr',))
        p.expect('(')
        args = []
        while p.peek() != ')':
            if p.peek() == 'metadata':
                p.next()
                d = 0
                while not (d == 0 and p.peek() in (',', ')')):
                    x = p.next()
                    d += x in '([{'
                    d -= x in ')]}'
                p.accept(',')
                continue
            args.append(p.tv())
            p.accept(',')
        p.expect(')')
        p.attrs()
        if op == 'call':
            return ('call', dest, rt, callee, args)
        while p.peek() != 'to':
            p.next()
        p.expect('to'); p.expect('label'); ok = p.next(); p.expect('unwind'); p.expect('label'); bad = p.next()
        return ('invoke', dest, rt, callee, args, ok, bad)
    if op == 'br':
        if p.accept('label'):
            return ('br', None, p.next())
        _, c = p.tv(); p.expect(',')
        p.expect('label'); a = p.next(); p.expect(','); p.expect('label'); b = p.next()
        return ('cbr', None, c, a, b)
    if op == 'switch':
        ty, v = p.tv(); p.expect(','); p.expect('label'); d = p.next(); p.expect('[')
        cases = []
        while p.peek() != ']':
            _, cv = p.tv(); p.expect(','); p.expect('label'); cases.append((cv[1], p.next()))
        return ('switch', None, ty, v, d, cases)
    if op == 'ret':
        if p.accept('void'):
            return ('ret', None, None, None)
        ty, v = p.tv()
        return ('ret', None, ty, v)
    if op == 'phi':
        ty = p.type()
        inc = []
        while p.accept('['):
            v = p.value(ty); p.expect(','); inc.append((p.next(), v)); p.expect(']')
            if not p.accept(','):
                break
        return ('phi', dest, ty, inc)
    if op == 'icmp':
        p.accept('samesign')
        pred = p.next()
        ty = p.type(); a = p.value(ty); p.expect(','); b = p.value(ty)
        return ('icmp', dest, pred, ty, a, b)
    if op == 'fcmp':
        while p.peek() in FLAGS:
            p.next()
        pred = p.next()
        ty = p.type(); a = p.value(ty); p.expect(','); b = p.value(ty)
        return ('fcmp', dest, pred, ty, a, b)
    if op in ('add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor',
              'fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
        fl = set()
        while p.peek() in FLAGS:
            fl.add(p.next())
        ty = p.type(); a = p.value(ty); p.expect(','); b = p.value(ty)
        return ('bin', dest, op, ty, a, b, frozenset(fl))
    if op == 'fneg':
        while p.peek() in FLAGS:
            p.next()
        ty, v = p.tv()
        return ('fneg', dest, ty, v)
    if op in ('sext', 'zext', 'trunc', 'bitcast', 'ptrtoint', 'inttoptr', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'fpext', 'fptrunc',
              'addrspacecast'):
        while p.peek() in FLAGS:
            p.next()
        fty, v = p.tv(); p.expect('to'); tty = p.type()
        return ('cast', dest, op, fty, v, tty)
    if op == 'select':
        while p.peek() in FLAGS:
            p.next()
        _, c = p.tv(); p.expect(','); ty, a = p.tv(); p.expect(','); _, b = p.tv()
        return ('select', dest, ty, c, a, b)
    if op == 'extractvalue':
        ty, v = p.tv()
        idx = []
        while p.accept(','):
            idx.append(int(p.next()))
        return ('extractvalue', dest, ty, v, idx)
    if op == 'insertvalue':
        ty, v = p.tv(); p.expect(','); ety, ev = p.tv()
        idx = []
        while p.accept(','):
            idx.append(int(p.next()))
        return ('insertvalue', dest, ty, v, ety, ev, idx)
    if op == 'landingpad':
        ty = p.type()
        cl = []
        cleanup = False
        while p.peek():
            x = p.next()
            if x == 'cleanup':
                cleanup = True
            elif x == 'catch':
                t, v = p.tv()
                cl.append(('catch', v))
            elif x == 'filter':
                t, v = p.tv()
                cl.append(('filter', v))
        return ('landingpad', dest, ty, cleanup, cl)
    if op == 'resume':
        ty, v = p.tv()
        return ('resume', None, v)
    if op == 'unreachable':
        return ('unreachable', None)
    if op == 'freeze':
        ty, v = p.tv()
        return ('freeze', dest, ty, v)
    if op == 'atomicrmw':
        p.accept('volatile')
        rop = p.next()
        _, ptr = p.tv(); p.expect(','); ty, v = p.tv()
        return ('atomicrmw', dest, rop, ptr, ty, v, _order(s)[-1])
    if op == 'cmpxchg':
        p.accept('weak'); p.accept('volatile')
        _, ptr = p.tv(); p.expect(','); ty, c = p.tv(); p.expect(','); _, nv = p.tv()
        return ('cmpxchg', dest, ptr, ty, c, nv, _order(s)[-2:])
    if op == 'fence':
        return ('fence', None, _order(s)[-1])
    if op == 'va_arg':
        return ('unsupported', dest, s)
    return ('unsupported', dest, s)
