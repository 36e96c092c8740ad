"""Parser for the subset of textual LLVM 18 IR that clang emits for the code under verification.

Types are tuples:  ('i',n) ('ptr',) ('void',) ('arr',n,t) ('vec',n,t) ('st',(t..),packed) ('fp',name) ('named',name)
Operands are tuples: ('l',name) local, ('c',value) integer constant, ('g',name) global, ('null',), ('undef',),
('zero',), ('agg',[ (type,operand).. ]), ('str',bytes), ('expr',op,...)
"""
import re

TOK = re.compile(
    r'\s*(?:'
    r'(?P<str>c?"(?:[^"\\]|\\.)*")'
    r'|(?P<loc>%(?:"[^"]*"|[-a-zA-Z$._0-9]+))'
    r'|(?P<glo>@(?:"[^"]*"|[-a-zA-Z$._0-9]+))'
    r'|(?P<num>-?\d+(?:\.\d+(?:e[+-]?\d+)?)?)(?![a-zA-Z_])'
    r'|(?P<hex>0x[0-9A-Fa-f]+)'
    r'|(?P<meta>!(?:[-a-zA-Z$._0-9]+|"(?:[^"\\]|\\.)*")?)'
    r'|(?P<attr>#\d+)'
    r'|(?P<dots>\.\.\.)'
    r'|(?P<word>[-a-zA-Z$._0-9]+)'
    r'|(?P<p>[\[\]{}()<>,=*:])'
    r')')


def tokenize(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == '' or s[i:].lstrip().startswith(';'):
                break
            raise SyntaxError('token: ' + s[i:i + 60])
        k = m.lastgroup
        out.append((k, m.group(k)))
        i = m.end()
        # comments
        j = i
        while j < n and s[j] in ' \t':
            j += 1
        if j < n and s[j] == ';':
            break
    return out


class P:
    def __init__(self, toks, mod):
        self.t = toks
        self.i = 0
        self.mod = mod

    def peek(self, k=0):
        j = self.i + k
        return self.t[j] if j < len(self.t) else (None, None)

    def next(self):
        r = self.t[self.i]
        self.i += 1
        return r

    def acc(self, v):
        if self.i < len(self.t) and self.t[self.i][1] == v:
            self.i += 1
            return True
        return False

    def exp(self, v):
        if not self.acc(v):
            raise SyntaxError('expected %r at %r in %r' % (v, self.t[self.i:self.i + 5], ' '.join(x[1] for x in self.t)[:200]))

    # ---- types
    def type(self):
        k, v = self.next()
        if k == 'word':
            if re.fullmatch(r'i\d+', v):
                t = ('i', int(v[1:]))
            elif v == 'ptr':
                t = ('ptr',)
            elif v == 'void':
                t = ('void',)
            elif v in ('float', 'double', 'half', 'x86_fp80', 'fp128'):
                t = ('fp', v)
            elif v in ('label', 'metadata', 'token', 'opaque'):
                t = (v,)
            else:
                raise SyntaxError('type ' + v)
        elif k == 'loc':
            t = ('named', v)
        elif v == '[':
            n = int(self.next()[1])
            self.exp('x')
            e = self.type()
            self.exp(']')
            t = ('arr', n, e)
        elif v == '<':
            if self.acc('{'):
                t = ('st', self._fields(), True)
                self.exp('>')
            else:
                n = int(self.next()[1])
                self.exp('x')
                e = self.type()
                self.exp('>')
                t = ('vec', n, e)
        elif v == '{':
            t = ('st', self._fields(), False)
        else:
            raise SyntaxError('type %r %r' % (v, self.t[max(0, self.i - 5):self.i + 5]))
        while True:
            if self.peek()[1] == '(' and False:
                pass
            if self.acc('*'):
                t = ('ptr',)
            else:
                return t

    def _fields(self):
        f = []
        if self.acc('}'):
            return ()
        while True:
            f.append(self.type())
            if self.acc('}'):
                return tuple(f)
            self.exp(',')

    # ---- operands
    def value(self, ty):
        k, v = self.next()
        if k == 'loc':
            return ('l', v)
        if k == 'glo':
            return ('g', v)
        if k == 'num':
            if '.' in v:
                return ('undef',)
            return ('c', int(v))
        if k == 'str':
            assert v[0] == 'c'
            return ('str', unesc(v[2:-1]))
        if k == 'hex':
            return ('undef',)
        if k == 'word':
            if v == 'true':
                return ('c', 1)
            if v == 'false':
                return ('c', 0)
            if v == 'null':
                return ('null',)
            if v in ('undef', 'poison'):
                return ('undef',)
            if v == 'zeroinitializer':
                return ('zero',)
            if v == 'none':
                return ('null',)
            if v == 'getelementptr':
                inb = False
                while self.peek()[1] in ('inbounds', 'nuw', 'nusw', 'inrange'):
                    inb = True
                    self.next()
                self.exp('(')
                bt = self.type()
                ops = []
                while self.acc(','):
                    while self.peek()[1] in ('inrange',):
                        self.next()
                        if self.acc('('):
                            while not self.acc(')'):
                                self.next()
                    t = self.type()
                    ops.append((t, self.value(t)))
                self.exp(')')
                return ('expr', 'gep', bt, ops)
            if v in ('bitcast', 'ptrtoint', 'inttoptr', 'addrspacecast', 'trunc', 'zext', 'sext'):
                self.exp('(')
                t = self.type()
                x = self.value(t)
                self.exp('to')
                t2 = self.type()
                self.exp(')')
                return ('expr', 'cast', v, t, x, t2)
            if v in ('add', 'sub', 'mul', 'xor', 'and', 'or', 'shl', 'lshr'):
                while self.peek()[1] in ('nuw', 'nsw'):
                    self.next()
                self.exp('(')
                t = self.type()
                a = self.value(t)
                self.exp(',')
                t2 = self.type()
                b = self.value(t2)
                self.exp(')')
                return ('expr', 'bin', v, t, a, b)
            if v == 'dso_local_equivalent' or v == 'no_cfi':
                return ('g', self.next()[1])
            raise SyntaxError('value word ' + v)
        if v == '[' or v == '{' or v == '<':
            if v == '<' and self.acc('{'):
                close = '}'
                packed = True
            else:
                close = {'[': ']', '{': '}', '<': '>'}[v]
                packed = False
            el = []
            if not self.acc(close):
                while True:
                    t = self.type()
                    el.append((t, self.value(t)))
                    if self.acc(close):
                        break
                    self.exp(',')
            if packed:
                self.exp('>')
            return ('agg', el)
        raise SyntaxError('value %r' % ((k, v),))

    def tv(self):
        t = self.type()
        self.attrs()
        if t == ('metadata',):
            # skip metadata operand
            depth = 0
            while True:
                k, v = self.peek()
                if v in (',', ')') and depth == 0:
                    break
                if v in ('(', '{'):
                    depth += 1
                if v in (')', '}'):
                    depth -= 1
                self.next()
            return t, ('undef',)
        return t, self.value(t)

    ATTRS = {'noundef', 'nonnull', 'noalias', 'nocapture', 'readonly', 'readnone', 'writeonly', 'signext', 'zeroext',
             'inreg', 'returned', 'immarg', 'noreturn', 'nest', 'swiftself', 'nofree', 'dead_on_unwind', 'writable',
             'allocptr', 'allocsize', 'captures', 'noext'}
    PATTRS = {'align', 'dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'byref', 'preallocated',
              'inalloca', 'elementtype', 'range', 'nofpclass', 'initializes', 'allocalign'}

    def attrs(self):
        info = {}
        while True:
            k, v = self.peek()
            if v in self.ATTRS:
                self.next()
                info[v] = True
            elif v in self.PATTRS:
                self.next()
                if self.peek()[1] == '(':
                    d = 0
                    buf = []
                    while True:
                        x = self.next()[1]
                        buf.append(x)
                        if x == '(':
                            d += 1
                        elif x == ')':
                            d -= 1
                            if d == 0:
                                break
                    info[v] = buf[1:-1]
                elif v == 'align':
                    info[v] = self.next()[1]
            elif k == 'attr':
                self.next()
            else:
                return info


def unesc(s):
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i + 1] == '\\':
                out.append(92)
                i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16))
                i += 3
        else:
            out.append(ord(s[i]))
            i += 1
    return bytes(out)


class Instr:
    __slots__ = ('op', 'res', 'ty', 'a', 'text')

    def __init__(self, op, res, ty, a, text):
        self.op = op
        self.res = res
        self.ty = ty
        self.a = a
        self.text = text


class Func:
    def __init__(self, mod, name, rty, params, lines, internal):
        self.mod = mod
        self.name = name
        self.rty = rty
        self.params = params      # [(type, name, attrs)]
        self.lines = lines
        self.internal = internal
        self._blocks = None

    @property
    def blocks(self):
        if self._blocks is None:
            self._parse()
        return self._blocks

    def _parse(self):
        blocks = {}
        cur = None
        self.entry = None
        lines = self.lines
        i = 0
        while i < len(lines):
            ln = lines[i]
            i += 1
            s = ln.strip()
            if not s or s.startswith(';'):
                continue
            m = re.match(r'^("[^"]*"|[-a-zA-Z$._0-9]+):', ln)
            if m:
                cur = '%' + m.group(1)
                blocks[cur] = []
                if self.entry is None:
                    self.entry = cur
                continue
            if cur is None:
                cur = '%' + str(len(self.params))
                # unnamed entry: number of unnamed params
                cur = '%__entry'
                blocks[cur] = []
                self.entry = cur
            # multi-line instrs
            if s.startswith('switch') and '[' in s and ']' not in s:
                while ']' not in lines[i]:
                    s += ' ' + lines[i].strip()
                    i += 1
                s += ' ' + lines[i].strip()
                i += 1
            if ('invoke ' in s) and i < len(lines) and lines[i].strip().startswith('to label'):
                s += ' ' + lines[i].strip()
                i += 1
            if 'landingpad' in s:
                while i < len(lines) and re.match(r'\s+(catch|cleanup|filter)', lines[i]):
                    s += ' ' + lines[i].strip()
                    i += 1
            blocks[cur].append(parse_instr(s, self.mod))
        self._blocks = blocks
        self._ipdom = None

    def succs(self, b):
        t = self.blocks[b][-1]
        if t.op == 'br':
            return list(t.a[1:]) if t.a[0] is not None else [t.a[1]]
        if t.op == 'switch':
            return list(dict.fromkeys([t.a[1]] + [x for _, x in t.a[2]]))
        if t.op == 'invoke':
            return [t.a['normal'], t.a['unwind']]
        return []

    def ipdom(self, b):
        """immediate post-dominator; exceptional edges and unreachable/resume ends are ignored"""
        if self._ipdom is None:
            self._compute_ipdom()
        return self._ipdom.get(b)

    def _compute_ipdom(self):
        bl = list(self.blocks)
        succ = {}
        for b in bl:
            t = self.blocks[b][-1]
            if t.op == 'invoke':
                succ[b] = [t.a['normal']]
            elif t.op == 'ret':
                succ[b] = ['EXIT']
            else:
                succ[b] = self.succs(b)
        # blocks that can reach EXIT
        reach = {'EXIT'}
        ch = True
        while ch:
            ch = False
            for b in bl:
                if b not in reach and any(s in reach for s in succ[b]):
                    reach.add(b)
                    ch = True
        pd = {b: None for b in bl}
        full = set(bl) | {'EXIT'}
        D = {b: set(full) for b in bl if b in reach}
        D['EXIT'] = {'EXIT'}
        ch = True
        while ch:
            ch = False
            for b in reversed(bl):
                if b not in reach:
                    continue
                ss = [D[s] for s in succ[b] if s in reach]
                n = set.intersection(*ss) | {b}
                if n != D[b]:
                    D[b] = n
                    ch = True
        for b in bl:
            if b not in reach:
                continue
            c = D[b] - {b}
            # the immediate one is dominated-by-all-others: has the largest D
            best = None
            for x in c:
                if best is None or len(D[x]) > len(D[best]):
                    best = x
            pd[b] = best
        self._ipdom = pd


BIN = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor'}
CAST = {'zext', 'sext', 'trunc', 'bitcast', 'ptrtoint', 'inttoptr', 'addrspacecast', 'fptosi', 'sitofp', 'uitofp',
        'fptoui', 'fpext', 'fptrunc'}


def parse_instr(s, mod):
    s0 = s
    p = P(tokenize(s), mod)
    res = None
    if p.peek()[0] == 'loc' and p.peek(1)[1] == '=':
        res = p.next()[1]
        p.next()
    k, op = p.next()
    if op in ('tail', 'musttail', 'notail'):
        k, op = p.next()
    if op in BIN:
        fl = set()
        while p.peek()[1] in ('nuw', 'nsw', 'exact', 'disjoint'):
            fl.add(p.next()[1])
        t = p.type()
        a = p.value(t)
        p.exp(',')
        b = p.value(t)
        return Instr('bin', res, t, (op, a, b, fl), s0)
    if op in CAST:
        while p.peek()[1] in ('nuw', 'nsw', 'nneg'):
            p.next()
        t = p.type()
        a = p.value(t)
        p.exp('to')
        t2 = p.type()
        return Instr('cast', res, t2, (op, t, a), s0)
    if op == 'icmp':
        while p.peek()[1] in ('samesign',):
            p.next()
        pred = p.next()[1]
        t = p.type()
        a = p.value(t)
        p.exp(',')
        b = p.value(t)
        return Instr('icmp', res, t, (pred, a, b), s0)
    if op == 'getelementptr':
        while p.peek()[1] in ('inbounds', 'nuw', 'nusw'):
            p.next()
        bt = p.type()
        ops = []
        while p.acc(','):
            t = p.type()
            ops.append((t, p.value(t)))
        return Instr('gep', res, ('ptr',), (bt, ops), s0)
    if op == 'load':
        p.acc('volatile')
        p.acc('atomic')
        t = p.type()
        p.exp(',')
        pt = p.type()
        a = p.value(pt)
        return Instr('load', res, t, (a,), s0)
    if op == 'store':
        p.acc('volatile')
        t = p.type()
        v = p.value(t)
        p.exp(',')
        pt = p.type()
        a = p.value(pt)
        return Instr('store', None, t, (v, a), s0)
    if op == 'alloca':
        p.acc('inalloca')
        t = p.type()
        n = None
        if p.acc(','):
            if p.peek()[1] not in ('align', 'addrspace'):
                nt = p.type()
                n = (nt, p.value(nt))
        return Instr('alloca', res, t, (n,), s0)
    if op == 'br':
        if p.acc('label'):
            return Instr('br', None, None, (None, p.next()[1]), s0)
        t = p.type()
        c = p.value(t)
        p.exp(',')
        p.exp('label')
        x = p.next()[1]
        p.exp(',')
        p.exp('label')
        y = p.next()[1]
        return Instr('br', None, None, (c, x, y), s0)
    if op == 'switch':
        t = p.type()
        v = p.value(t)
        p.exp(',')
        p.exp('label')
        d = p.next()[1]
        p.exp('[')
        cs = []
        while not p.acc(']'):
            t2 = p.type()
            c = p.value(t2)
            p.exp(',')
            p.exp('label')
            cs.append((c[1], p.next()[1]))
        return Instr('switch', None, t, (v, d, cs), s0)
    if op == 'ret':
        t = p.type()
        if t == ('void',):
            return Instr('ret', None, t, None, s0)
        return Instr('ret', None, t, p.value(t), s0)
    if op == 'phi':
        t = p.type()
        inc = {}
        while True:
            p.exp('[')
            v = p.value(t)
            p.exp(',')
            inc[p.next()[1]] = v
            p.exp(']')
            if not p.acc(','):
                break
        return Instr('phi', res, t, inc, s0)
    if op == 'select':
        t = p.type()
        c = p.value(t)
        p.exp(',')
        t1, a = p.tv()
        p.exp(',')
        t2, b = p.tv()
        return Instr('select', res, t1, (t, c, a, b), s0)
    if op in ('call', 'invoke'):
        while p.peek()[1] in ('fastcc', 'ccc', 'fast', 'nnan', 'ninf', 'nsz', 'coldcc'):
            p.next()
        p.attrs()
        rt = p.type()
        # optional function type
        if p.peek()[1] == '(':
            d = 0
            while True:
                x = p.next()[1]
                if x == '(':
                    d += 1
                elif x == ')':
                    d -= 1
                    if d == 0:
                        break
        k, v = p.peek()
        if v == 'asm':
            return Instr('asm', res, rt, None, s0)
        callee = p.value(('ptr',))
        p.exp('(')
        args = []
        if not p.acc(')'):
            while True:
                t = p.type()
                at = p.attrs()
                if t == ('metadata',):
                    d = 0
                    while not (d == 0 and p.peek()[1] in (',', ')')):
                        x = p.next()[1]
                        if x in '({':
                            d += 1
                        elif x in ')}':
                            d -= 1
                    args.append((t, ('undef',), at))
                else:
                    args.append((t, p.value(t), at))
                if p.acc(')'):
                    break
                p.exp(',')
        d = {'callee': callee, 'args': args}
        if op == 'invoke':
            while p.next()[1] != 'label':
                pass
            d['normal'] = p.next()[1]
            p.exp('unwind')
            p.exp('label')
            d['unwind'] = p.next()[1]
        return Instr(op, res, rt, d, s0)
    if op == 'extractvalue':
        t, v = p.tv()
        idx = []
        while p.acc(','):
            if p.peek()[0] != 'num':
                break
            idx.append(int(p.next()[1]))
        return Instr(op, res, t, (v, idx), s0)
    if op == 'insertvalue':
        t, v = p.tv()
        p.exp(',')
        t2, e = p.tv()
        idx = []
        while p.acc(','):
            if p.peek()[0] != 'num':
                break
            idx.append(int(p.next()[1]))
        return Instr(op, res, t, (v, t2, e, idx), s0)
    if op == 'extractelement':
        t, v = p.tv()
        p.exp(',')
        t2, i = p.tv()
        return Instr(op, res, t, (v, t2, i), s0)
    if op == 'insertelement':
        t, v = p.tv()
        p.exp(',')
        t2, e = p.tv()
        p.exp(',')
        t3, i = p.tv()
        return Instr(op, res, t, (v, t2, e, t3, i), s0)
    if op == 'shufflevector':
        t, a = p.tv()
        p.exp(',')
        t2, b = p.tv()
        p.exp(',')
        t3, m = p.tv()
        return Instr(op, res, t, (a, b, t3, m), s0)
    if op == 'freeze':
        t, v = p.tv()
        return Instr(op, res, t, (v,), s0)
    if op == 'unreachable':
        return Instr(op, None, None, None, s0)
    if op == 'landingpad':
        return Instr(op, res, p.type(), s0, s0)
    if op == 'resume':
        t, v = p.tv()
        return Instr(op, None, t, (v,), s0)
    if op == 'fence':
        return Instr('nop', None, None, None, s0)
    return Instr('unsupported', res, None, op, s0)


class Global:
    __slots__ = ('name', 'ty', 'init', 'const', 'mod', 'external')


class Module:
    def __init__(self, text, name=''):
        self.name = name
        self.types = {}
        self.globals = {}
        self.funcs = {}
        self.decls = {}
        self.aliases = {}
        self._parse(text)

    def _parse(self, text):
        lines = text.split('\n')
        i = 0
        while i < len(lines):
            ln = lines[i]
            i += 1
            if not ln or ln[0] in ';!' or ln.startswith(('source_filename', 'target', 'attributes', 'module asm', '$')):
                continue
            if ln[0] == '%':
                m = re.match(r'(%(?:"[^"]*"|[-a-zA-Z$._0-9]+)) = type (.*)', ln)
                if m:
                    if m.group(2).strip() == 'opaque':
                        self.types[m.group(1)] = ('opaque',)
                    else:
                        self.types[m.group(1)] = P(tokenize(m.group(2)), self).type()
                continue
            if ln[0] == '@':
                self._global(ln)
                continue
            if ln.startswith('declare'):
                m = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', ln)
                self.decls['@' + m.group(1)] = ln
                continue
            if ln.startswith('define'):
                body = []
                while lines[i] != '}':
                    body.append(lines[i])
                    i += 1
                i += 1
                self._define(ln, body)

    def _global(self, ln):
        m = re.match(r'(@(?:"[^"]*"|[-a-zA-Z$._0-9]+)) = (.*)', ln)
        name, rest = m.group(1), m.group(2)
        g = Global()
        g.name = name
        g.mod = self
        g.external = False
        m = re.search(r'\b(global|constant|alias)\b ', rest)
        if not m:
            return
        head = rest[:m.start()]
        if m.group(1) == 'alias':
            mm = re.findall(r'@("[^"]*"|[-a-zA-Z$._0-9]+)', rest)
            self.aliases[name] = '@' + mm[-1]
            return
        g.const = m.group(1) == 'constant'
        g.init = rest[m.end():]
        g.external = 'external' in head
        p = P(tokenize_prefix_type(g.init), self)
        g.ty = p.type()
        self.globals[name] = g

    def ginit(self, g):
        p = P(tokenize(g.init), self)
        t = p.type()
        return t, p.value(t)

    def _define(self, ln, body):
        m = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', ln)
        name = '@' + m.group(1)
        head = ln[:m.start()]
        p = P(tokenize(ln[m.end() - 1:]), self)
        p.exp('(')
        params = []
        if not p.acc(')'):
            n = 0
            while True:
                if p.acc('...'):
                    p.exp(')')
                    break
                t = p.type()
                at = p.attrs()
                nm = None
                if p.peek()[0] == 'loc':
                    nm = p.next()[1]
                else:
                    nm = '%' + str(n)
                n += 1
                params.append((t, nm, at))
                if p.acc(')'):
                    break
                p.exp(',')
        hp = P(tokenize(head), self)
        hp.next()
        skip = {'dso_local', 'internal', 'private', 'linkonce_odr', 'weak_odr', 'weak', 'linkonce', 'hidden', 'protected',
                'fastcc', 'ccc', 'unnamed_addr', 'local_unnamed_addr', 'available_externally', 'comdat', 'dso_preemptable'}
        while hp.peek()[1] in skip or hp.peek()[1] in P.ATTRS or hp.peek()[1] in P.PATTRS:
            if hp.peek()[1] in skip:
                hp.next()
            else:
                hp.attrs()
        rty = hp.type()
        self.funcs[name] = Func(self, name, rty, params, body, ' internal ' in head or ' private ' in head)

    # ---- layout
    def resolve(self, t):
        while t[0] == 'named':
            t = self.types[t[1]]
        return t

    def size(self, t):
        return self._layout(t)[0]

    def align(self, t):
        return self._layout(t)[1]

    def _layout(self, t):
        t = self.resolve(t)
        k = t[0]
        if k == 'i':
            n = (t[1] + 7) // 8
            p = 1
            while p < n:
                p *= 2
            a = min(p, 16)
            return (n + a - 1) // a * a, a
        if k == 'ptr':
            return 8, 8
        if k == 'arr':
            s, a = self._layout(t[2])
            return s * t[1], a
        if k == 'vec':
            s = self._layout(t[2])[0] * t[1]
            return s, s
        if k == 'st':
            off = 0
            al = 1
            for f in t[1]:
                s, a = self._layout(f)
                if t[2]:
                    a = 1
                al = max(al, a)
                off = (off + a - 1) // a * a + s
            return (off + al - 1) // al * al, al
        if k == 'fp':
            s = {'float': 4, 'double': 8, 'half': 2}.get(t[1], 16)
            return s, s
        raise NotImplementedError('layout %r' % (t,))

    def field_off(self, t, i):
        off = 0
        for j, f in enumerate(t[1]):
            s, a = self._layout(f)
            if t[2]:
                a = 1
            off = (off + a - 1) // a * a
            if j == i:
                return off
            off += s
        raise IndexError


def tokenize_prefix_type(s):
    # only the type prefix is needed; limit the work on huge initialisers
    cut = s[:400]
    try:
        return tokenize(cut)
    except SyntaxError:
        # cut inside a token: tokenise as much as possible
        for k in range(399, 0, -1):
            try:
                return tokenize(s[:k])
            except SyntaxError:
                continue
        return tokenize(s)
