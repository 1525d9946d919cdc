"""Lazy parser for textual LLVM IR (as printed by rustc's llvm-dis).

Only what rustc emits for the harness crates is supported; anything else raises IRError when the
function that contains it is first executed, so nothing is skipped silently.
"""
import re
import struct
import ctypes


class IRError(Exception):
    pass


TOK = re.compile(
    r'''%"(?:[^"\\]|\\.)*"|%[\w.$-]+|@"(?:[^"\\]|\\.)*"|@[\w.$-]+|!"[^"]*"|![\w.]+|!|'''
    r'''c"[^"]*"|"[^"]*"|f0x[0-9A-Fa-f]+|0x[KLMHR]?[0-9A-Fa-f]+|[+-]?\d+\.\d*(?:[eE][+-]?\d+)?|'''
    r'''[+-](?:inf|nan|qnan|snan)\b|-?\d+|[A-Za-z_][\w.]*|\.\.\.|[<>{}\[\]()=,*|:#]''')


def tokenize(s):
    if '/*' in s:
        s = re.sub(r'/\* \([\w |]*\) \*/', ' ', s)
    return TOK.findall(s)


# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ('k', 'n', 'elts', 'size', 'align', 'offs')

    def __init__(self, k, n=0, elts=None):
        self.k = k          # i f p v(void) a(array) s(struct) vec label md
        self.n = n          # bits (i, f) or count (a, vec)
        self.elts = elts
        self.size = None
        self.align = None
        self.offs = None
        if k == 'i':
            self.size = 1 if n <= 8 else 2 if n <= 16 else 4 if n <= 32 else 8 if n <= 64 else 16
            self.align = self.size
            if n > 8 and n % 8:
                self.size = (n + 7) // 8
        elif k == 'f':
            self.size = self.align = n // 8
        elif k == 'p':
            self.size = self.align = 8
            self.n = 64
        elif k == 'a':
            e = elts[0]
            self.size = e.size * n
            self.align = e.align
        elif k == 'vec':
            e = elts[0]
            bits = e.n if e.k in 'if' else 64
            self.size = (bits * n + 7) // 8
            self.align = self.size
        elif k in ('s', 'ps'):
            off = 0
            al = 1
            self.offs = []
            for t in elts:
                a = 1 if k == 'ps' else t.align
                off = (off + a - 1) // a * a
                self.offs.append(off)
                off += t.size
                al = max(al, a)
            self.size = (off + al - 1) // al * al
            self.align = al
        else:
            self.size = 0
            self.align = 1

    def __repr__(self):
        return '%s%s%s' % (self.k, self.n, self.elts or '')


_tcache = {}


def mkty(k, n=0, elts=None):
    key = (k, n, tuple(map(id, elts)) if elts else None)
    t = _tcache.get(key)
    if t is None:
        t = _tcache[key] = Ty(k, n, elts)
    return t


VOID = mkty('v')
PTR = mkty('p')
FLOAT = mkty('f', 32)
DOUBLE = mkty('f', 64)
LABEL = mkty('label')
MD = mkty('md')


def f32(x):
    return ctypes.c_float(x).value


class P:
    """Token cursor."""
    __slots__ = ('t', 'i', 'mod')

    def __init__(self, toks, mod):
        self.t = toks
        self.i = 0
        self.mod = mod

    def peek(self, k=0):
        j = self.i + k
        return self.t[j] if j < len(self.t) else None

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def accept(self, x):
        if self.i < len(self.t) and self.t[self.i] == x:
            self.i += 1
            return True
        return False

    def expect(self, x):
        y = self.next()
        if y != x:
            raise IRError('expected %r got %r in %s' % (x, y, ' '.join(self.t[:60])))

    def at_type(self):
        x = self.peek()
        if x is None:
            return False
        return (x in ('ptr', 'float', 'double', 'void', 'label', 'metadata', '[', '{', '<')
                or re.fullmatch(r'i\d+', x) is not None or x in self.mod.named)

    def type(self):
        x = self.next()
        if x == 'ptr':
            if self.peek() == 'addrspace':
                self.i += 4
            return PTR
        if x[0] == 'i' and x[1:].isdigit():
            return mkty('i', int(x[1:]))
        if x == 'float':
            return FLOAT
        if x == 'double':
            return DOUBLE
        if x == 'void':
            return VOID
        if x == 'label':
            return LABEL
        if x == 'metadata':
            return MD
        if x == '[':
            n = int(self.next())
            self.expect('x')
            e = self.type()
            self.expect(']')
            return mkty('a', n, (e,))
        if x == '{':
            el = []
            if not self.accept('}'):
                while True:
                    el.append(self.type())
                    if self.accept('}'):
                        break
                    self.expect(',')
            return mkty('s', 0, tuple(el))
        if x == '<':
            if self.peek() == '{':
                self.next()
                el = []
                if not self.accept('}'):
                    while True:
                        el.append(self.type())
                        if self.accept('}'):
                            break
                        self.expect(',')
                self.expect('>')
                return mkty('ps', 0, tuple(el))
            n = int(self.next())
            self.expect('x')
            e = self.type()
            self.expect('>')
            return mkty('vec', n, (e,))
        if x in self.mod.named:
            t = self.mod.named[x]
            if isinstance(t, str):
                t = P(tokenize(t), self.mod).type()
                self.mod.named[x] = t
            return t
        raise IRError('type %r in %s' % (x, ' '.join(self.t[:60])))

    def skip_paren(self):
        # at '('
        d = 0
        while True:
            x = self.next()
            if x in ('(',):
                d += 1
            elif x == ')':
                d -= 1
                if d == 0:
                    return

    def skip_attrs(self):
        """Skip parameter / return attributes between a type and a value."""
        while True:
            x = self.peek()
            if x is None:
                return
            if x in ATTRS:
                self.i += 1
                if x == 'align':
                    if self.peek() == '(':
                        self.skip_paren()
                    else:
                        self.i += 1
                elif self.peek() == '(':
                    self.skip_paren()
            elif x[0] == '"':
                self.i += 1
                if self.accept('='):
                    self.i += 1
            elif x == '#':
                self.i += 1
                self.i += 1
            else:
                return


ATTRS = set('''noundef nonnull noalias nocapture nofree readonly readnone writeonly captures dereferenceable
dereferenceable_or_null align sret byval zeroext signext inreg returned immarg range allocptr allocalign writable
dead_on_unwind nofpclass initializes swiftself inrange dead_on_return noext preallocated nest elementtype'''.split())

FMF = {'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'fast'}


# operands: ('l', name) local; ('c', value) constant python value; ('g', name); ('x', ...) const expr


class Module:
    def __init__(self, path):
        self.text = open(path).read()
        self.named = {}
        self.gtext = {}
        self.fspan = {}
        self.decls = {}
        self.md_pos = None
        self.attr = {}
        text = self.text
        pos = 0
        n = len(text)
        find = text.find
        self.md_first = None
        while pos < n:
            end = find('\n', pos)
            if end < 0:
                end = n
            c = text[pos] if pos < end else ''
            if c == '@':
                eq = find(' = ', pos)
                self.gtext[text[pos:eq]] = (eq + 3, end)
            elif c == 'd' and text.startswith('define', pos):
                m = FNAME.search(text, pos, end)
                fin = find('\n}', end)
                self.fspan[m.group(1)] = (pos, fin)
                end = fin + 2
            elif c == 'd' and text.startswith('declare', pos):
                m = FNAME.search(text, pos, end)
                self.decls[m.group(1)] = (pos, end)
            elif c == '%':
                eq = find(' = type ', pos)
                self.named[text[pos:eq]] = text[eq + 8:end]
            elif c == 'a' and text.startswith('attributes #', pos):
                sp = find(' ', pos + 12)
                self.attr[text[pos + 11:sp]] = text[sp:end]
            elif c == '!' and self.md_first is None:
                self.md_first = pos
            pos = end + 1
        self.functions = {}
        self._md = None

    # ------------------------------------------------------------ metadata
    def md(self, key):
        if self._md is None:
            self._md = {}
            for m in re.finditer(r'^(!\d+) = (.*)$', self.text[self.md_first or 0:], re.M):
                self._md[m.group(1)] = m.group(2)
        return self._md.get(key)

    def loc_lines(self, dbg):
        """(file, line, function) of a debug location and everything it is inlined into."""
        out = []
        while dbg:
            t = self.md(dbg)
            if not t or 'DILocation' not in t:
                break
            line = int(re.search(r'line: (\d+)', t).group(1)) if 'line:' in t else 0
            sc = re.search(r'scope: (!\d+)', t)
            f, fn = self.scope_info(sc.group(1)) if sc else (None, None)
            out.append((f, line, fn))
            ia = re.search(r'inlinedAt: (!\d+)', t)
            dbg = ia.group(1) if ia else None
        return out

    _sc = None

    def scope_info(self, s):
        if self._sc is None:
            self._sc = {}
        if s in self._sc:
            return self._sc[s]
        f = fn = None
        cur = s
        while cur:
            t = self.md(cur) or ''
            m = re.search(r'file: (!\d+)', t)
            if m and f is None:
                ft = self.md(m.group(1)) or ''
                a = re.search(r'filename: "([^"]*)"', ft)
                d = re.search(r'directory: "([^"]*)"', ft)
                f = a.group(1) if a else None
                if f and not f.startswith('/') and d:
                    f = d.group(1) + '/' + f
            if 'DISubprogram' in t:
                m = re.search(r'linkageName: "([^"]*)"', t)
                nm = re.search(r'name: "([^"]*)"', t)
                fn = nm.group(1) if nm else None
                sc = re.search(r'scope: (!\d+)', t)
                ns = []
                p = sc.group(1) if sc else None
                while p:
                    pt = self.md(p) or ''
                    nm = re.search(r'name: "([^"]*)"', pt)
                    if 'DINamespace' in pt and nm:
                        ns.append(nm.group(1))
                    sc = re.search(r'scope: (!\d+)', pt)
                    p = sc.group(1) if sc else None
                fn = '::'.join(list(reversed(ns)) + [fn or '?'])
                break
            m = re.search(r'scope: (!\d+)', t)
            cur = m.group(1) if m else None
        self._sc[s] = (f, fn)
        return self._sc[s]

    # ------------------------------------------------------------ functions
    def function(self, name):
        f = self.functions.get(name)
        if f is None:
            f = self.functions[name] = Function(self, name)
        return f


FNAME = re.compile(r'(@"[^"]*"|@[\w.$-]+)\(')


class Instr:
    __slots__ = ('op', 'd', 'ty', 'a', 'x', 'dbg')

    def __init__(self, op, d=None, ty=None, a=(), x=None):
        self.op = op
        self.d = d
        self.ty = ty
        self.a = a
        self.x = x
        self.dbg = None


class Block:
    __slots__ = ('name', 'lines', 'ins', 'phis', 'idx')

    def __init__(self, name, idx):
        self.name = name
        self.lines = []
        self.ins = None
        self.phis = None
        self.idx = idx


LBL = re.compile(r'^("(?:[^"\\]|\\.)*"|[\w.$-]+):')


class Function:
    def __init__(self, mod, name):
        self.mod = mod
        self.name = name
        s, e = mod.fspan[name]
        text = mod.text
        hend = text.find('\n', s)
        header = text[s:hend]
        body = text[hend + 1:e]
        m = FNAME.search(header)
        p = P(tokenize(header[m.end():]), mod)
        self.params = []
        n = 0
        while not p.accept(')'):
            if p.accept('...'):
                continue
            t = p.type()
            p.skip_attrs()
            if p.peek() and p.peek()[0] == '%':
                nm = p.next()
            else:
                nm = '%%%d' % n
            n += 1
            self.params.append((nm, t))
            p.accept(',')
        self.attrs = ' '.join(mod.attr.get(a, '') for a in re.findall(r'#\d+', header[m.end():]))
        self.noreturn = 'noreturn' in self.attrs
        self.blocks = []
        self.bidx = {}
        cur = Block('%%%d' % n, 0)
        self.blocks.append(cur)
        self.bidx[cur.name] = 0
        first = True
        for line in body.split('\n'):
            if not line:
                continue
            if line[0] != ' ':
                mm = LBL.match(line)
                if mm:
                    nm = '%' + mm.group(1)
                    if first and not cur.lines:
                        self.bidx.pop(cur.name)
                        cur.name = nm
                    else:
                        cur = Block(nm, len(self.blocks))
                        self.blocks.append(cur)
                    self.bidx[nm] = cur.idx
                    first = False
                    continue
                if line[0] in ';':
                    continue
                raise IRError('line %r' % line)
            if line.startswith('    #dbg'):
                continue
            if line.startswith('    ') or line.startswith('  ]') or (cur.lines and cur.lines[-1].endswith('[')):
                cur.lines[-1] += ' ' + line.strip()
                continue
            first = False
            cur.lines.append(line.strip())

    def block_ins(self, b):
        blk = self.blocks[b]
        if blk.ins is None:
            phis = []
            ins = []
            for ln in blk.lines:
                i = parse_instr(ln, self.mod)
                if i.op == 'phi':
                    phis.append(i)
                else:
                    ins.append(i)
            blk.phis = phis
            blk.ins = ins
        return blk


BIN = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr',
       'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
CAST = {'trunc', 'zext', 'sext', 'fptrunc', 'fpext', 'fptoui', 'fptosi', 'uitofp', 'sitofp', 'ptrtoint',
        'inttoptr', 'bitcast', 'addrspacecast'}
FLAGS = {'nuw', 'nsw', 'exact', 'disjoint', 'nneg', 'inbounds', 'samesign', 'nusw', 'volatile', 'atomic'} | FMF


def cstr_bytes(tok):
    s = tok[2:-1]
    out = bytearray()
    i = 0
    while i < len(s):
        c = s[i]
        if c == '\\':
            if s[i + 1] == '\\':
                out.append(92)
                i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16))
                i += 3
        else:
            out += c.encode('latin1') if ord(c) < 256 else c.encode('utf8')
            i += 1
    return bytes(out)


def fconst(tok, ty):
    if tok.startswith('f0x'):
        v = int(tok[3:], 16)
        if ty.n == 32:
            return struct.unpack('<f', struct.pack('<I', v))[0]
        return struct.unpack('<d', struct.pack('<Q', v))[0]
    if tok.startswith('0x'):
        return struct.unpack('<d', struct.pack('<Q', int(tok[2:], 16)))[0]
    if tok.endswith('inf'):
        return float('-inf') if tok[0] == '-' else float('inf')
    if 'nan' in tok:
        return float('nan')
    v = float(tok)
    return f32(v) if ty.n == 32 else v


def zero_of(ty):
    if ty.k == 'f':
        return 0.0
    if ty.k in ('i', 'p'):
        return 0
    if ty.k in ('a', 'vec'):
        return tuple(zero_of(ty.elts[0]) for _ in range(ty.n))
    if ty.k in ('s', 'ps'):
        return tuple(zero_of(t) for t in ty.elts)
    return None


def value(p, ty):
    """Parse an operand of the given type."""
    x = p.peek()
    c = x[0]
    if c == '%':
        p.next()
        return ('l', x)
    if c == '@':
        p.next()
        return ('g', x)
    if x in ('undef', 'poison', 'zeroinitializer', 'null', 'none'):
        p.next()
        return ('c', zero_of(ty))
    if x == 'true':
        p.next()
        return ('c', 1)
    if x == 'false':
        p.next()
        return ('c', 0)
    if ty.k == 'i' and (c.isdigit() or c == '-'):
        p.next()
        return ('c', int(x) & ((1 << ty.n) - 1))
    if ty.k == 'f':
        p.next()
        return ('c', fconst(x, ty))
    if x == 'splat':
        p.next()
        p.expect('(')
        t = p.type()
        v = value(p, t)
        p.expect(')')
        if v[0] == 'c':
            return ('c', tuple([v[1]] * ty.n))
        return ('agg', [v] * ty.n)
    if c == 'c' and x.startswith('c"'):
        p.next()
        return ('c', tuple(cstr_bytes(x)))
    if c in '<[{':
        p.next()
        close = {'<': '>', '[': ']', '{': '}'}[c]
        packed = False
        if c == '<' and p.peek() == '{':
            p.next()
            close = '}'
            packed = True
        vs = []
        if p.peek() != close:
            while True:
                t = p.type()
                vs.append(value(p, t))
                if not p.accept(','):
                    break
        p.expect(close)
        if packed:
            p.expect('>')
        if all(v[0] == 'c' for v in vs):
            return ('c', tuple(v[1] for v in vs))
        return ('agg', vs)
    if x == 'getelementptr':
        p.next()
        while p.peek() in FLAGS or p.peek() == 'inrange':
            if p.next() == 'inrange':
                p.skip_paren()
        p.expect('(')
        t = p.type()
        ops = []
        while p.accept(','):
            ot = p.type()
            ops.append((ot, value(p, ot)))
        p.expect(')')
        return ('gep', t, ops)
    if x in ('ptrtoint', 'inttoptr', 'trunc', 'bitcast', 'zext', 'sext', 'addrspacecast', 'ptrtoaddr'):
        p.next()
        p.expect('(')
        t = p.type()
        v = value(p, t)
        p.expect('to')
        t2 = p.type()
        p.expect(')')
        return ('cast', x, t, v, t2)
    if x in ('add', 'sub', 'mul', 'xor', 'and', 'or', 'shl', 'lshr'):
        p.next()
        while p.peek() in FLAGS:
            p.next()
        p.expect('(')
        t = p.type()
        a = value(p, t)
        p.expect(',')
        t = p.type()
        b = value(p, t)
        p.expect(')')
        return ('cbin', x, t, a, b)
    if ty.k == 'md' or c == '!':
        while p.peek() not in (',', ')', None):
            if p.peek() == '(':
                p.skip_paren()
            else:
                p.next()
        return ('c', None)
    if x == 'dso_local_equivalent' or x == 'no_cfi':
        p.next()
        return value(p, ty)
    raise IRError('value %r of type %r in %s' % (x, ty, ' '.join(p.t[:60])))


def parse_instr(line, mod):
    k = line.find(', !dbg ')
    dbg = None
    if k >= 0:
        j = k + 7
        e = j
        while e < len(line) and line[e] not in ', ':
            e += 1
        dbg = line[j:e]
    p = P(tokenize(line), mod)
    ins = _parse(p, mod, line)
    ins.dbg = dbg
    return ins


def _parse(p, mod, line):
    d = None
    if p.peek()[0] == '%' and p.peek(1) == '=':
        d = p.next()
        p.next()
    op = p.next()
    if op in ('tail', 'musttail', 'notail'):
        op = p.next()
    if op in BIN:
        while p.peek() in FLAGS:
            p.next()
        t = p.type()
        a = value(p, t)
        p.expect(',')
        b = value(p, t)
        return Instr(op, d, t, (a, b))
    if op in ('icmp', 'fcmp'):
        while p.peek() in FLAGS:
            p.next()
        pred = p.next()
        t = p.type()
        a = value(p, t)
        p.expect(',')
        b = value(p, t)
        return Instr(op, d, t, (a, b), pred)
    if op == 'fneg' or op == 'freeze':
        while p.peek() in FLAGS:
            p.next()
        t = p.type()
        return Instr(op, d, t, (value(p, t),))
    if op in CAST or op == 'ptrtoaddr':
        while p.peek() in FLAGS:
            p.next()
        t = p.type()
        a = value(p, t)
        p.expect('to')
        t2 = p.type()
        return Instr(op, d, t2, (a,), t)
    if op == 'phi':
        while p.peek() in FLAGS:
            p.next()
        t = p.type()
        inc = []
        while True:
            p.expect('[')
            v = value(p, t)
            p.expect(',')
            inc.append((v, p.next()))
            p.expect(']')
            if not p.accept(','):
                break
            if p.peek() != '[':
                break
        return Instr('phi', d, t, (), inc)
    if op == 'br':
        t = p.type()
        if t.k == 'label':
            return Instr('br', None, None, (), [p.next()])
        c = value(p, t)
        p.expect(',')
        p.expect('label')
        b1 = p.next()
        p.expect(',')
        p.expect('label')
        b2 = p.next()
        return Instr('br', None, None, (c,), [b1, b2])
    if op == 'switch':
        t = p.type()
        v = value(p, t)
        p.expect(',')
        p.expect('label')
        dflt = p.next()
        p.expect('[')
        cases = []
        while not p.accept(']'):
            ct = p.type()
            cv = value(p, ct)
            p.expect(',')
            p.expect('label')
            cases.append((cv[1], p.next()))
        return Instr('switch', None, t, (v,), (dflt, cases))
    if op == 'ret':
        t = p.type()
        if t.k == 'v':
            return Instr('ret', None, t)
        return Instr('ret', None, t, (value(p, t),))
    if op == 'unreachable':
        return Instr('unreachable')
    if op == 'select':
        while p.peek() in FLAGS:
            p.next()
        ct = p.type()
        c = value(p, ct)
        p.expect(',')
        t = p.type()
        a = value(p, t)
        p.expect(',')
        t = p.type()
        b = value(p, t)
        return Instr('select', d, t, (c, a, b), ct)
    if op == 'alloca':
        while p.peek() in ('inalloca', 'swifterror'):
            p.next()
        t = p.type()
        n = ('c', 1)
        al = t.align
        while p.accept(','):
            if p.accept('align'):
                al = int(p.next())
            elif p.at_type():
                nt = p.type()
                n = value(p, nt)
            else:
                break
        return Instr('alloca', d, t, (n,), al)
    if op == 'load':
        while p.peek() in FLAGS:
            p.next()
        t = p.type()
        p.expect(',')
        pt = p.type()
        a = value(p, pt)
        return Instr('load', d, t, (a,))
    if op == 'store':
        while p.peek() in FLAGS:
            p.next()
        t = p.type()
        v = value(p, t)
        p.expect(',')
        pt = p.type()
        a = value(p, pt)
        return Instr('store', None, t, (v, a))
    if op == 'getelementptr':
        while p.peek() in FLAGS or p.peek() == 'inrange':
            if p.next() == 'inrange':
                p.skip_paren()
        t = p.type()
        ops = []
        while p.accept(','):
            if not p.at_type():
                break
            ot = p.type()
            ops.append((ot, value(p, ot)))
        return Instr('gep', d, t, tuple(v for _, v in ops), [ot for ot, _ in ops])
    if op == 'extractvalue':
        t = p.type()
        a = value(p, t)
        idx = []
        while p.accept(','):
            if not p.peek().isdigit():
                break
            idx.append(int(p.next()))
        return Instr(op, d, t, (a,), idx)
    if op == 'insertvalue':
        t = p.type()
        a = value(p, t)
        p.expect(',')
        t2 = p.type()
        b = value(p, t2)
        idx = []
        while p.accept(','):
            if not p.peek().isdigit():
                break
            idx.append(int(p.next()))
        return Instr(op, d, t, (a, b), idx)
    if op == 'extractelement':
        t = p.type()
        a = value(p, t)
        p.expect(',')
        t2 = p.type()
        return Instr(op, d, t, (a, value(p, t2)))
    if op == 'insertelement':
        t = p.type()
        a = value(p, t)
        p.expect(',')
        t2 = p.type()
        b = value(p, t2)
        p.expect(',')
        t3 = p.type()
        return Instr(op, d, t, (a, b, value(p, t3)))
    if op == 'shufflevector':
        t = p.type()
        a = value(p, t)
        p.expect(',')
        p.type()
        b = value(p, t)
        p.expect(',')
        t3 = p.type()
        m = value(p, t3)
        return Instr(op, d, t, (a, b), m[1])
    if op in ('call', 'invoke'):
        while p.peek() in FMF or p.peek() in ('fastcc', 'ccc', 'coldcc', 'tailcc', 'preserve_mostcc', 'cc'):
            p.next()
        p.skip_attrs()
        rt = p.type()
        if p.peek() == '(':   # varargs function type
            p.skip_paren()
        if p.peek() == 'asm':
            return Instr('asm', d, rt, (), line)
        callee = value(p, PTR)
        p.expect('(')
        args = []
        tys = []
        while not p.accept(')'):
            t = p.type()
            p.skip_attrs()
            args.append(value(p, t))
            tys.append(t)
            p.accept(',')
        nr = any('noreturn' in mod.attr.get('#' + p.t[j + 1], '') for j in range(p.i, len(p.t) - 1) if p.t[j] == '#')
        if op == 'invoke':
            j = p.t.index('to', p.i)
            return Instr('invoke', d, rt, tuple(args), (callee, tys, nr, p.t[j + 2]))
        return Instr('call', d, rt, tuple(args), (callee, tys, nr))
    if op == 'fence':
        return Instr('fence')
    if op == 'cmpxchg':
        while p.peek() in ('weak', 'volatile'):
            p.next()
        pt = p.type()
        a = value(p, pt)
        p.expect(',')
        t = p.type()
        b = value(p, t)
        p.expect(',')
        t = p.type()
        c = value(p, t)
        return Instr(op, d, t, (a, b, c))
    if op == 'atomicrmw':
        while p.peek() in ('volatile',):
            p.next()
        o = p.next()
        pt = p.type()
        a = value(p, pt)
        p.expect(',')
        t = p.type()
        b = value(p, t)
        return Instr(op, d, t, (a, b), o)
    if op in ('landingpad', 'resume', 'cleanupret', 'catchswitch'):
        return Instr(op, d, None, (), line)
    raise IRError('instruction %r' % line[:200])
