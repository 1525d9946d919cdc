"""Symbolic executor for rustc's LLVM IR: memory, code generation, path exploration."""
import bisect
import os
import struct
import time

import z3

from . import ir
from .ir import IRError
from .sym import *
from .values import *

M64 = (1 << 64) - 1
GLOBAL0 = 0x10000
HEAP0 = 1 << 32
STACK0 = 1 << 40
FUNC0 = 1 << 46


class Obj:
    __slots__ = ('base', 'size', 'data', 'sym', 'owner', 'ro', 'name')

    def __init__(self, base, size, data, owner, ro=False, name=None):
        self.base = base
        self.size = size
        self.data = data
        self.sym = None        # offset -> (value, size)
        self.owner = owner
        self.ro = ro
        self.name = name

    def copy(self, owner):
        o = Obj(self.base, self.size, bytearray(self.data), owner, self.ro, self.name)
        if self.sym:
            o.sym = dict(self.sym)
        return o


class Frame:
    __slots__ = ('fn', 'L', 'code', 'prev', 'allocas', 'dest')

    def __init__(self, fn, L, code, dest):
        self.fn = fn
        self.L = L
        self.code = code
        self.dest = dest
        self.allocas = []

    def clone(self):
        f = Frame(self.fn, self.L[:], self.code, self.dest)
        f.allocas = self.allocas[:]
        return f


class State:
    def __init__(self):
        self.pc = []
        self.known = {}
        self.model = None
        self.fcache = {}
        self.fp = 0
        self.rnds = ()
        self.rints = ()
        self.inputs = []
        self.frames = []
        self.gobjs = {}
        self.hobjs = {}
        self.hbases = []
        self.sobjs = {}
        self.sbases = []
        self.hnext = HEAP0
        self.snext = STACK0
        self.cases = ()
        self.ncase = 0
        self.expect = None
        self.steps = 0
        self.errno = 0
        self.last = None       # last object found
        self.token = object()

    def clone(self):
        s = State.__new__(State)
        s.pc = self.pc[:]
        s.known = dict(self.known)
        s.model = self.model
        s.fcache = dict(self.fcache)
        s.fp = self.fp
        s.rnds = self.rnds
        s.rints = self.rints
        s.inputs = self.inputs[:]
        s.frames = [f.clone() for f in self.frames]
        s.gobjs = dict(self.gobjs)
        s.hobjs = dict(self.hobjs)
        s.hbases = self.hbases[:]
        s.sobjs = dict(self.sobjs)
        s.sbases = self.sbases[:]
        s.hnext = self.hnext
        s.snext = self.snext
        s.cases = self.cases
        s.ncase = self.ncase
        s.expect = self.expect
        s.steps = self.steps
        s.errno = self.errno
        s.last = None
        s.token = object()
        self.token = object()   # both sides now copy on write
        self.last = None
        return s


class Call:
    __slots__ = ('fn', 'args', 'dest', 'code')

    def __init__(self, fn, args, dest, code):
        self.fn = fn
        self.args = args
        self.dest = dest
        self.code = code


class Ret:
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v


class Program:
    """A loaded module: global layout and compiled blocks. Shared by all paths of a process."""

    def __init__(self, path):
        self.mod = ir.Module(path)
        self.gaddr = {}
        self.gbases = []
        self.gobj = {}
        self.gname = {}
        self.faddr = {}
        self.fname = {}
        self._layout()
        self.fns = {}

    def _layout(self):
        a = GLOBAL0
        mod = self.mod
        self.gty = {}
        names = list(mod.gtext)
        for g in names:
            s, e = mod.gtext[g]
            self.gty[g] = None
        i = 0
        for f in list(mod.fspan) + list(mod.decls):
            self.faddr[f] = FUNC0 + 16 * i
            self.fname[FUNC0 + 16 * i] = f
            i += 1
        for g in names:
            s, e = mod.gtext[g]
            head = mod.text[s:min(e, s + 4000)]
            if ' alias ' in head[:80]:
                continue
            p = ir.P(ir.tokenize(head), mod)
            ext = False
            tls = False
            while True:
                x = p.next()
                if x in ('external', 'extern_weak'):
                    ext = True
                if x == 'thread_local':
                    tls = True
                    if p.peek() == '(':
                        p.skip_paren()
                if x in ('global', 'constant'):
                    ro = x == 'constant'
                    break
            t = p.type()
            al = max(t.align, 16)
            a = (a + al - 1) // al * al
            self.gaddr[g] = a
            self.gty[g] = (t, ro, ext)
            self.gbases.append(a)
            self.gname[a] = g
            a += t.size + 16
        self.gend = a

    def addr_of(self, g):
        a = self.gaddr.get(g)
        if a is not None:
            return a
        a = self.faddr.get(g)
        if a is not None:
            if g in WEAK_NULL:
                return 0
            return a
        raise IRError('global ' + g)

    def global_obj(self, base):
        o = self.gobj.get(base)
        if o is None:
            g = self.gname[base]
            t, ro, ext = self.gty[g]
            data = bytearray(t.size)
            o = Obj(base, t.size, data, None, ro, g)
            self.gobj[base] = o
            if ext:
                return o
            s, e = self.mod.gtext[g]
            p = ir.P(ir.tokenize(self.mod.text[s:e]), self.mod)
            while p.next() not in ('global', 'constant'):
                pass
            t = p.type()
            self.fill(data, 0, t, p)
        return o

    def fill(self, data, off, t, p):
        """Parse and write a constant initialiser."""
        x = p.peek()
        if x in ('zeroinitializer', 'undef', 'poison', 'null'):
            p.next()
            return
        if t.k == 'a' and x.startswith('c"'):
            p.next()
            b = ir.cstr_bytes(x)
            data[off:off + len(b)] = b
            return
        if t.k in ('a', 's', 'ps', 'vec'):
            opening = p.next()
            if opening == '<' and p.peek() == '{':
                p.next()
            n = t.n if t.k in ('a', 'vec') else len(t.elts)
            for i in range(n):
                et = p.type()
                eo = off + (i * et.size if t.k in ('a', 'vec') else t.offs[i])
                self.fill(data, eo, et, p)
                p.accept(',')
            while p.peek() in ('}', ']', '>') and n >= 0:
                c = p.next()
                if c == {'[': ']', '{': '}', '<': '>'}[opening]:
                    break
            return
        v = self.const(ir.value(p, t), t)
        if t.k == 'f':
            data[off:off + t.size] = struct.pack('<f' if t.n == 32 else '<d', v)
        else:
            data[off:off + t.size] = (v & ((1 << (8 * t.size)) - 1)).to_bytes(t.size, 'little')

    def const(self, v, t):
        k = v[0]
        if k == 'c':
            return v[1]
        if k == 'g':
            return self.addr_of(v[1])
        if k == 'gep':
            ops = v[2]
            a = self.const(ops[0][1], ir.PTR)
            return (a + self.gep_const(v[1], [(t2, self.const(o, t2)) for t2, o in ops[1:]])) & M64
        if k == 'cast':
            x = self.const(v[3], v[2])
            if v[4].k == 'f':
                raise IRError('const cast to float')
            return x & ((1 << v[4].n) - 1)
        if k == 'cbin':
            a = self.const(v[3], v[2])
            b = self.const(v[4], v[2])
            m = (1 << v[2].n) - 1
            return {'add': a + b, 'sub': a - b, 'mul': a * b, 'xor': a ^ b, 'and': a & b, 'or': a | b,
                    'shl': a << b, 'lshr': a >> b}[v[1]] & m
        if k == 'agg':
            return tuple(self.const(x, t.elts[0] if t.k in ('a', 'vec') else t.elts[i]) for i, x in enumerate(v[1]))
        raise IRError('const %r' % (v,))

    def gep_const(self, t, idx):
        off = 0
        for i, (it, v) in enumerate(idx):
            if it.k == 'i' and v >> (it.n - 1):
                v -= 1 << it.n
            if i == 0:
                off += v * t.size
            elif t.k in ('a', 'vec'):
                t = t.elts[0]
                off += v * t.size
            else:
                off += t.offs[v]
                t = t.elts[v]
        return off

    def fn(self, name):
        f = self.fns.get(name)
        if f is None:
            f = self.fns[name] = CFn(self, name)
        return f


WEAK_NULL = {'@gettid', '@__cxa_thread_atexit_impl', '@__pthread_get_minstack', '@copy_file_range'}


class CFn:
    """A function being compiled block by block to Python."""

    def __init__(self, prog, name):
        self.prog = prog
        self.name = name
        self.f = prog.mod.function(name)
        self.slots = {}
        for nm, t in self.f.params:
            self.slots[nm] = len(self.slots)
        self.nparams = len(self.f.params)
        self.codes = [None] * len(self.f.blocks)
        self.resume = {}
        # slot numbers for every definition
        for b in self.f.blocks:
            for ln in b.lines:
                if ln[0] == '%':
                    nm = ln[:ln.index(' = ')]
                    if nm not in self.slots:
                        self.slots[nm] = len(self.slots)
        self.nslots = len(self.slots)
        self.noreturn = self.f.noreturn
        self.short = name

    def entry(self):
        c = self.codes[0]
        if c is None:
            c = self.compile(0, 0)
        return c

    def block(self, b):
        c = self.codes[b]
        if c is None:
            c = self.compile(b, 0)
        return c

    def at(self, b, k):
        if k == 0:
            return self.block(b)
        c = self.resume.get((b, k))
        if c is None:
            c = self.compile(b, k)
        return c

    def compile(self, b, k):
        code = compile_block(self, b, k)
        if k == 0:
            self.codes[b] = code
        else:
            self.resume[(b, k)] = code
        return code


class Code:
    """Compiled code of a block from instruction k on."""
    __slots__ = ('run', 'fn', 'b', 'k', 'lines', 'n')

    def __init__(self, fn, b, k):
        self.fn = fn
        self.b = b
        self.k = k

    def at_line(self, line):
        return self.k + bisect.bisect_right(self.lines, line) - 1


EX = None     # the running executor
NS = {}


def lit(x):
    if x.__class__ is float:
        if x != x:
            return 'NAN'
        if x == INF:
            return 'INF'
        if x == -INF:
            return 'NINF'
        return repr(x)
    return repr(x)


def compile_block(cf, b, k):
    prog = cf.prog
    f = cf.f
    blk = f.block_ins(b)
    slots = cf.slots
    src = []
    starts = []
    K = []
    code = Code(cf, b, k)

    def op(v, t):
        if v[0] == 'l':
            return 'L[%d]' % slots[v[1]]
        c = prog.const(v, t)
        if c.__class__ in (int, float):
            return lit(c)
        if c is None:
            return 'None'
        K.append(c)
        return 'K[%d]' % (len(K) - 1)

    def isl(v):
        return v[0] == 'l'

    def emit(s):
        src.append('  ' + s)

    def chk(*ops):
        c = [o for o in ops if o.startswith('L[') or o in ('a', 'b', 'c', 'v', 'i')]
        return ' and '.join('%s.__class__ is int' % o for o in dict.fromkeys(c)) or 'True'

    def chkf(*ops):
        c = [o for o in ops if o.startswith('L[')]
        return ' and '.join('%s.__class__ is float' % o for o in dict.fromkeys(c)) or 'True'

    def edge(label, ind):
        t = f.bidx[label]
        tb = f.block_ins(t)
        me = blk.name
        ls, rs = [], []
        for ph in tb.phis:
            for v, lb in ph.x:
                if lb == me:
                    ls.append('L[%d]' % slots[ph.d])
                    rs.append(op(v, ph.ty))
                    break
            else:
                raise IRError('phi edge')
        if ls:
            src.append('  ' + ind + ','.join(ls) + '=' + ','.join(rs))
        src.append('  ' + ind + 'return %d' % t)

    for n in range(k, len(blk.ins)):
        i = blk.ins[n]
        starts.append(len(src) + 2)
        o = i.op
        t = i.ty
        d = 'L[%d]' % slots[i.d] if i.d else None
        if o in ir.BIN:
            a, b2 = op(i.a[0], t), op(i.a[1], t)
            if t.k == 'vec':
                et = t.elts[0]
                if et.k == 'f':
                    emit('%s=S.fop(%r,%s,%s,%d)' % (d, o, a, b2, et.n))
                else:
                    emit('%s=tuple(S.iop2(%r,x,y,%d) for x,y in zip(%s,%s))' % (d, o, et.n, a, b2))
            elif t.k == 'f':
                e = {'fadd': '%s+%s', 'fsub': '%s-%s', 'fmul': '%s*%s'}.get(o)
                if e:
                    e = e % (a, b2)
                    if t.n == 32:
                        e = 'cf(%s).value' % e
                    emit('%s=%s if %s else S.fop(%r,%s,%s,%d)' % (d, e, chkf(a, b2), o, a, b2, t.n))
                else:
                    emit('%s=S.fop(%r,%s,%s,%d)' % (d, o, a, b2, t.n))
            else:
                N = t.n
                m = (1 << N) - 1
                e = {'add': '(%s+%s)&%d', 'sub': '(%s-%s)&%d', 'mul': '(%s*%s)&%d'}.get(o)
                if e:
                    e = e % (a, b2, m)
                elif o in ('and', 'or', 'xor'):
                    e = '%s%s%s' % (a, {'and': '&', 'or': '|', 'xor': '^'}[o], b2)
                elif o == 'shl' and not isl(i.a[1]):
                    e = '(%s<<%s)&%d' % (a, b2, m)
                elif o == 'lshr' and not isl(i.a[1]):
                    e = '%s>>%s' % (a, b2)
                elif o in ('udiv', 'urem') and not isl(i.a[1]):
                    e = '%s%s%s' % (a, '//' if o == 'udiv' else '%', b2)
                else:
                    e = 'S.iconc(%r,%s,%s,%d)' % (o, a, b2, N)
                emit('%s=%s if %s else S.iop(%r,%s,%s,%d)' % (d, e, chk(a, b2), o, a, b2, N))
        elif o == 'icmp':
            a, b2 = op(i.a[0], t), op(i.a[1], t)
            if t.k == 'vec':
                emit('%s=S.icmp(%r,%s,%s,%d)' % (d, i.x, a, b2, t.elts[0].n))
            else:
                N = t.n
                p = i.x
                if p in ('eq', 'ne'):
                    e = '(%s%s%s)+0' % (a, '==' if p == 'eq' else '!=', b2)
                else:
                    s = {'lt': '<', 'le': '<=', 'gt': '>', 'ge': '>='}[p[1:]]
                    if p[0] == 'u':
                        e = '(%s%s%s)+0' % (a, s, b2)
                    else:
                        h = 1 << (N - 1)
                        e = '((%s^%d)%s(%s^%d))+0' % (a, h, s, b2, h)
                emit('%s=%s if %s else S.icmp(%r,%s,%s,%d)' % (d, e, chk(a, b2), p, a, b2, N))
        elif o == 'fcmp':
            a, b2 = op(i.a[0], t), op(i.a[1], t)
            n_ = t.n if t.k == 'f' else t.elts[0].n
            emit('%s=S.fcmp(%r,%s,%s,%d)' % (d, i.x, a, b2, n_))
        elif o == 'fneg':
            a = op(i.a[0], t)
            if t.k == 'vec':
                emit('%s=tuple(S.fneg(x,%d) for x in %s)' % (d, t.elts[0].n, a))
            else:
                emit('%s=S.fneg(%s,%d)' % (d, a, t.n))
        elif o == 'freeze':
            emit('%s=%s' % (d, op(i.a[0], t)))
        elif o in ('trunc', 'zext', 'sext'):
            a = op(i.a[0], i.x)
            if t.k == 'vec':
                emit('%s=S.cast(%r,%s,%d,%d)' % (d, o, a, i.x.elts[0].n, t.elts[0].n))
            elif o == 'zext':
                emit('%s=%s if %s else S.cast(%r,%s,%d,%d)' % (d, a, chk(a), o, a, i.x.n, t.n))
            elif o == 'trunc':
                emit('%s=%s&%d if %s else S.cast(%r,%s,%d,%d)' % (d, a, (1 << t.n) - 1, chk(a), o, a, i.x.n, t.n))
            else:
                emit('%s=S.cast(%r,%s,%d,%d)' % (d, o, a, i.x.n, t.n))
        elif o in ('ptrtoint', 'inttoptr', 'ptrtoaddr'):
            a = op(i.a[0], i.x)
            N1, N2 = i.x.n, t.n
            if N2 < N1:
                emit('%s=S.cast("trunc",%s,%d,%d)' % (d, a, N1, N2))
            else:
                emit('%s=%s' % (d, a))
        elif o == 'bitcast':
            K.append((i.x, t))
            emit('%s=S.bitcast(%s,K[%d][0],K[%d][1])' % (d, op(i.a[0], i.x), len(K) - 1, len(K) - 1))
        elif o in ('fptosi', 'fptoui'):
            a = op(i.a[0], i.x)
            et, es = (t.elts[0], i.x.elts[0]) if t.k == 'vec' else (t, i.x)
            emit('%s=S.ftoi(%s,%d,%r,False,%d)' % (d, a, et.n, o == 'fptosi', es.n))
        elif o in ('sitofp', 'uitofp'):
            a = op(i.a[0], i.x)
            et, es = (t.elts[0], i.x.elts[0]) if t.k == 'vec' else (t, i.x)
            emit('%s=S.itof(%s,%d,%r,%d)' % (d, a, es.n, o == 'sitofp', et.n))
        elif o == 'fptrunc':
            emit('%s=S.fptrunc(%s)' % (d, op(i.a[0], i.x)))
        elif o == 'fpext':
            emit('%s=S.fpext(%s)' % (d, op(i.a[0], i.x)))
        elif o == 'select':
            c, a, b2 = op(i.a[0], i.x), op(i.a[1], t), op(i.a[2], t)
            N = repr(t.n if t.k in 'ip' else 'f%d' % t.n if t.k == 'f' else None)
            if i.x.k == 'vec':
                et = t.elts[0]
                N = repr(et.n if et.k in 'ip' else 'f%d' % et.n)
            emit('c=%s' % c)
            emit('%s=(%s if c else %s) if c.__class__ is int else S.select(c,%s,%s,%s)' % (d, a, b2, a, b2, N))
        elif o == 'br':
            if len(i.x) == 1:
                edge(i.x[0], '')
            else:
                emit('c=%s' % op(i.a[0], ir.mkty('i', 1)))
                emit('if c.__class__ is not int: c=S.br(c)')
                emit('if c:')
                edge(i.x[0], '  ')
                edge(i.x[1], '')
        elif o == 'switch':
            emit('c=%s' % op(i.a[0], t))
            emit('if c.__class__ is not int: c=S.switch(c,%d,%r)' % (t.n, tuple(v for v, _ in i.x[1])))
            for v, lb in i.x[1]:
                emit('if c==%d:' % v)
                edge(lb, '  ')
            edge(i.x[0], '')
        elif o == 'ret':
            emit('return Ret(%s)' % (op(i.a[0], t) if i.a else 'None'))
        elif o == 'unreachable':
            emit('S.unreachable()')
        elif o == 'alloca':
            c = op(i.a[0], ir.mkty('i', 64))
            emit('%s=S.alloca(%d*%s,%d)' % (d, t.size, c, i.x))
        elif o == 'load':
            a = op(i.a[0], ir.PTR)
            emit('%s=%s' % (d, ld(t, a, K)))
        elif o == 'store':
            v, a = op(i.a[0], t), op(i.a[1], ir.PTR)
            emit(stx(t, a, v, K))
        elif o == 'gep':
            base = op(i.a[0], ir.PTR)
            if i.x[0].k == 'vec':
                raise IRError('vector gep')
            off = 0
            terms = []
            ct = t
            for j, (v, it) in enumerate(zip(i.a[1:], i.x[1:])):
                if j == 0:
                    sz = ct.size
                elif ct.k in ('a', 'vec'):
                    ct = ct.elts[0]
                    sz = ct.size
                else:
                    fi = prog.const(v, it)
                    off += ct.offs[fi]
                    ct = ct.elts[fi]
                    continue
                if isl(v):
                    terms.append((op(v, it), sz, it.n))
                else:
                    c = prog.const(v, it)
                    if c >> (it.n - 1):
                        c -= 1 << it.n
                    off += c * sz
            e = base
            cond = [base]
            for x, sz, N in terms:
                if N != 64:
                    x = 'S.cast("sext",%s,%d,64)' % (x, N)
                    emit('i=%s' % x)
                    x = 'i'
                e += '+%s*%d' % (x, sz) if sz != 1 else '+' + x
                cond.append(x)
            if off:
                e += '+%d' % off
            if len(cond) == 1 and not off:
                emit('%s=%s' % (d, e))
            else:
                ts = '(' + ''.join('(%s,%d),' % (x, sz) for x, (_, sz, _) in zip(cond[1:], terms)) + ')'
                emit('%s=(%s)&M64 if %s else S.gep(%s,%s,%d)' % (d, e, chk(*cond), base, ts, off))
        elif o == 'extractvalue':
            emit('%s=%s%s' % (d, op(i.a[0], t), ''.join('[%d]' % x for x in i.x)))
        elif o == 'insertvalue':
            emit('%s=S.insertvalue(%s,%s,%r)' % (d, op(i.a[0], t), op_any(i.a[1], op), tuple(i.x)))
        elif o == 'extractelement':
            emit('%s=%s[S.conc_int(%s,64)]' % (d, op(i.a[0], t), op(i.a[1], ir.mkty('i', 64))))
        elif o == 'insertelement':
            emit('v=list(%s); v[S.conc_int(%s,64)]=%s; %s=tuple(v)' % (
                op(i.a[0], t), op(i.a[2], ir.mkty('i', 64)), op_any(i.a[1], op), d))
        elif o == 'shufflevector':
            emit('v=%s+%s; %s=tuple(v[j] for j in %r)' % (op(i.a[0], t), op(i.a[1], t), d, tuple(i.x)))
        elif o in ('call', 'invoke'):
            callee, tys, nr = i.x[0], i.x[1], i.x[2]
            args = [op(v, ty) if ty.k != 'md' else 'None' for v, ty in zip(i.a, tys)]
            done = False
            if callee[0] == 'g':
                nm = callee[1]
                if nm.startswith('@llvm.'):
                    r = intrinsic(nm, args, tys, t, d, K)
                    if r:
                        emit(r)
                    else:
                        emit('pass')
                    done = True
                else:
                    h = hook_of(nm)
                    if h:
                        emit(('%s=' % d if d else '') + 'S.%s(%s)' % (h, ','.join(args)))
                        done = True
                    elif nm in prog.mod.fspan:
                        if prog.fn(nm).noreturn or nr:
                            emit('S.panic(%r)' % nm)
                            done = True
                    elif nm in prog.gaddr or nm in prog.mod.decls:
                        emit('S.unsupported_call(%r)' % nm)
                        done = True
                    else:
                        raise IRError('callee ' + nm)
            if not done:
                if callee[0] == 'g':
                    K.append(prog.fn(callee[1]))
                    fe = 'K[%d]' % (len(K) - 1)
                else:
                    fe = 'S.callee(%s)' % op(callee, ir.PTR)
                nxt = n + 1
                K.append((cf, b, nxt))
                emit('return Call(%s,(%s),%d,K[%d])' % (
                    fe, ''.join(a + ',' for a in args), slots[i.d] if i.d else -1, len(K) - 1))
                break
            if o == 'invoke':
                edge(i.x[3], '')
        elif o == 'fence':
            emit('pass')
        elif o == 'cmpxchg':
            a, b2, c = op(i.a[0], ir.PTR), op(i.a[1], t), op(i.a[2], t)
            K.append(t)
            emit('%s=S.cmpxchg(%s,%s,%s,K[%d])' % (d, a, b2, c, len(K) - 1))
        elif o == 'atomicrmw':
            a, b2 = op(i.a[0], ir.PTR), op(i.a[1], t)
            K.append(t)
            emit('%s=S.atomicrmw(%r,%s,%s,K[%d])' % (d, i.x, a, b2, len(K) - 1))
        else:
            emit('S.unsupported(%r)' % o)
    if k == len(blk.ins):
        # after an invoke: go on at its normal destination
        starts.append(2)
        edge(blk.ins[-1].x[3], '')
    text = 'def run(L):\n' + '\n'.join(src) + '\n'
    ns = dict(NS)
    ns['S'] = EX
    ns['K'] = K
    exec(compile(text, cf.name, 'exec'), ns)
    code.run = ns['run']
    code.lines = starts
    code.n = len(starts)
    return code


def op_any(v, op):
    return op(v, ir.mkty('i', 64))


def ld(t, a, K):
    if t.k == 'i':
        if t.n % 8 == 0:
            return 'S.ldi(%s,%d)' % (a, t.n // 8)
        return 'S.ldbits(%s,%d,%d)' % (a, t.size, t.n)
    if t.k == 'p':
        return 'S.ldi(%s,8)' % a
    if t.k == 'f':
        return 'S.ldf(%s,%d)' % (a, t.size)
    K.append(t)
    return 'S.ldagg(%s,K[%d])' % (a, len(K) - 1)


def stx(t, a, v, K):
    if t.k == 'i' or t.k == 'p':
        return 'S.sti(%s,%s,%d)' % (a, v, t.size)
    if t.k == 'f':
        return 'S.stf(%s,%s,%d)' % (a, v, t.size)
    K.append(t)
    return 'S.stagg(%s,%s,K[%d])' % (a, v, len(K) - 1)


HOOKS = {}


def hook_of(nm):
    n = nm[1:]
    if n in HOOKS:
        return HOOKS[n]
    for pat, h in HOOK_SUFFIX:
        if pat in n:
            return h
    return None


for _n in ('lv_i64 lv_fix lv_real lv_f32 lv_case lv_tier lv_assume lv_check lv_cover lv_expect_panic malloc calloc realloc '
           'free posix_memalign bcmp memcmp strlen abort getenv write __errno_location').split():
    HOOKS[_n] = 'x_' + _n
HOOK_SUFFIX = [('hashmap_random_keys', 'x_random_keys'),
               ('___rust_no_alloc_shim_is_unstable', 'x_nop')]


def intrinsic(nm, args, tys, rt, d, K):
    n = nm[6:]
    base = n.split('.')[0]
    if base in ('lifetime', 'assume', 'dbg', 'invariant', 'experimental', 'donothing', 'prefetch', 'va_start',
                'va_end', 'stackrestore'):
        return None
    if base == 'memcpy' or base == 'memmove':
        return 'S.memcpy(%s,%s,%s)' % tuple(args[:3])
    if base == 'memset':
        return 'S.memset(%s,%s,%s)' % tuple(args[:3])
    if base in ('umax', 'umin', 'smax', 'smin'):
        if rt.k == 'vec':
            return '%s=tuple(S.minmax(%r,x,y,%d) for x,y in zip(%s,%s))' % (d, base, rt.elts[0].n, args[0], args[1])
        return '%s=S.minmax(%r,%s,%s,%d)' % (d, base, args[0], args[1], rt.n)
    if base in ('sadd', 'ssub', 'smul', 'uadd', 'usub', 'umul') and '.with.overflow' in n:
        return '%s=S.ovf(%r,%s,%s,%d)' % (d, base, args[0], args[1], tys[0].n)
    if base in ('sadd', 'ssub', 'uadd', 'usub') and '.sat' in n:
        if rt.k == 'vec':
            return '%s=tuple(S.satop(%r,x,y,%d) for x,y in zip(%s,%s))' % (d, base, rt.elts[0].n, args[0], args[1])
        return '%s=S.satop(%r,%s,%s,%d)' % (d, base, args[0], args[1], rt.n)
    if base in ('round', 'floor', 'ceil', 'trunc', 'rint', 'nearbyint', 'roundeven'):
        m = 'rint' if base in ('nearbyint', 'roundeven') else base
        e = rt.elts[0] if rt.k == 'vec' else rt
        return '%s=S.fround(%r,%s,%d)' % (d, m, args[0], e.n)
    if base == 'fabs':
        if rt.k == 'vec':
            return '%s=tuple(S.fabs(x,%d) for x in %s)' % (d, rt.elts[0].n, args[0])
        return '%s=S.fabs(%s,%d)' % (d, args[0], rt.n)
    if base == 'sqrt':
        return '%s=S.fsqrt(%s,%d)' % (d, args[0], rt.n)
    if base in ('minnum', 'maxnum', 'minimumnum', 'maximumnum'):
        if rt.k == 'vec':
            return '%s=tuple(S.fminmax(%r,x,y,%d) for x,y in zip(%s,%s))' % (d, base, rt.elts[0].n, args[0], args[1])
        return '%s=S.fminmax(%r,%s,%s,%d)' % (d, base, args[0], args[1], rt.n)
    if base in ('fptosi', 'fptoui'):
        a, b = (tys[0].elts[0], rt.elts[0]) if rt.k == 'vec' else (tys[0], rt)
        return '%s=S.ftoi(%s,%d,%r,True,%d)' % (d, args[0], b.n, base == 'fptosi', a.n)
    if base in ('sin', 'cos', 'exp', 'log'):
        return '%s=S.funary_uf(%r,%s,%d)' % (d, base, args[0], rt.n)
    if base == 'copysign':
        return '%s=S.fcopysign(%s,%s,%d)' % (d, args[0], args[1], rt.n)
    if base in ('fma', 'fmuladd'):
        return '%s=S.fop("fadd",S.fop("fmul",%s,%s,%d),%s,%d)' % (d, args[0], args[1], rt.n, args[2], rt.n) \
            if base == 'fmuladd' else 'S.unsupported("fma")'
    if base in ('ctpop', 'ctlz', 'cttz', 'bswap', 'bitreverse', 'abs'):
        return '%s=S.bitfn(%r,%s,%d)' % (d, base, args[0], rt.n)
    if base in ('fshl', 'fshr'):
        return '%s=S.funnel(%r,%s,%s,%s,%d)' % (d, base, args[0], args[1], args[2], rt.n)
    if base in ('ucmp', 'scmp'):
        return '%s=S.cmp3(%r,%s,%s,%d,%d)' % (d, base, args[0], args[1], tys[0].n, rt.n)
    if base == 'threadlocal' or base == 'ptrmask' or base == 'expect':
        return '%s=%s' % (d, args[0])
    if base == 'is' and n.startswith('is.constant'):
        return '%s=0' % d
    if base == 'is' and n.startswith('is.fpclass'):
        return '%s=S.fpclass(%s,%s,%d)' % (d, args[0], args[1], tys[0].n)
    if base == 'load' and n.startswith('load.relative'):
        return '%s=S.loadrel(%s,%s)' % (d, args[0], args[1])
    if base == 'objectsize':
        return '%s=S.unsupported("objectsize")' % d
    if base in ('trap', 'ubsantrap', 'debugtrap'):
        return 'S.panic("trap")'
    if base == 'vector' and n.startswith('vector.reduce.'):
        return '%s=S.vreduce(%r,%s,%d)' % (d, n.split('.')[2], args[0], rt.n)
    if base == 'x86':
        if 'pause' in n:
            return None
        if 'pmovmskb' in n:
            return '%s=S.movmsk(%s)' % (d, args[0])
    return 'S.unsupported(%r)' % nm


NS.update(dict(INF=INF, NINF=-INF, NAN=float('nan'), cf=ctypes.c_float, M64=M64, Ret=Ret, Call=Call, Fork=Fork))


class MemError(Violation):
    pass


class Executor(Engine):
    def __init__(self, prog, opts):
        global EX
        Engine.__init__(self, opts)
        EX = self
        self.prog = prog
        self.set_opts(opts)
        self.cov_cache = {}
        self.reset()

    def set_opts(self, opts):
        self.opts = opts
        self.max_steps = opts.get('max_steps', 200000)
        self.timeout = int(opts.get('timeout_ms', 20000))

    def reset(self):
        self.stats = Stats()
        self.solver = z3.Solver()
        self.solver.set("timeout", min(self.timeout, int(self.opts.get("first_ms", 2000))))
        self.stack = []
        self.touched = set()
        self.samples = []
        self.nsample = 0
        self.checks = {}          # label -> [concrete, by solver, undecided, violated]
        self.covers = {}
        self.violations = []
        self.on_violation = None
        self.paths = 0
        self.ended = {}
        self.assume_false = 0
        self.notes = set()
        self.undecided = False

    # ------------------------------------------------------------ memory
    def find(self, a, n):
        st = self.st
        o = st.last
        if o is not None and o.base <= a and a + n <= o.base + o.size:
            return o
        if a >= FUNC0:
            raise MemError('access to code')
        if a >= STACK0:
            i = bisect.bisect_right(st.sbases, a) - 1
            o = st.sobjs[st.sbases[i]] if i >= 0 else None
        elif a >= HEAP0:
            i = bisect.bisect_right(st.hbases, a) - 1
            o = st.hobjs[st.hbases[i]] if i >= 0 else None
        else:
            gb = self.prog.gbases
            i = bisect.bisect_right(gb, a) - 1
            if i < 0:
                if n == 0:
                    return None
                raise MemError('null or dangling pointer 0x%x' % a)
            o = st.gobjs.get(gb[i]) or self.prog.global_obj(gb[i])
        if o is None or a + n > o.base + o.size:
            if n == 0:
                return None
            raise MemError('out-of-bounds access at 0x%x size %d' % (a, n))
        st.last = o
        return o

    def wobj(self, a, n):
        o = self.find(a, n)
        st = self.st
        if o is not None and o.owner is not st.token:
            if o.ro:
                raise MemError('write to constant')
            o = o.copy(st.token)
            st.last = o
            b = o.base
            if b >= STACK0:
                st.sobjs[b] = o
            elif b >= HEAP0:
                st.hobjs[b] = o
            else:
                st.gobjs[b] = o
        return o

    def addr(self, a):
        if a.__class__ is int:
            return a
        return self.conc_int(a, 64, 'address')

    def ldi(self, a, n):
        if a.__class__ is not int:
            a = self.addr(a)
        o = self.find(a, n)
        off = a - o.base
        s = o.sym
        if not s:
            return int.from_bytes(o.data[off:off + n], 'little')
        c = s.get(off)
        if c is not None and c[1] == n:
            v = c[0]
            if v.__class__ in (SI, SB, Cat):
                return v
            return Cat(tuple((v, k, n) for k in range(n)))
        return self.cat_norm(self.bytes_at(o, off, n))

    def bytes_at(self, o, off, n):
        out = list(o.data[off:off + n])
        for k in range(max(0, off - 15), off + n):
            c = o.sym.get(k)
            if c is not None:
                v, m = c
                b = self.bytes_of(v, m)
                for j in range(m):
                    x = k + j - off
                    if 0 <= x < n:
                        out[x] = b[j]
        return out

    def ldbits(self, a, size, n):
        v = self.ldi(a, size)
        if v.__class__ is int:
            return v & ((1 << n) - 1)
        return self.cast('trunc', v, size * 8, n)

    def ldf(self, a, n):
        if a.__class__ is not int:
            a = self.addr(a)
        o = self.find(a, n)
        off = a - o.base
        s = o.sym
        if not s:
            return struct.unpack_from('<f' if n == 4 else '<d', o.data, off)[0]
        c = s.get(off)
        if c is not None and c[1] == n and c[0].__class__ in (FX, FR, FP, FH):
            return c[0]
        return self.i2bits(self.cat_norm(self.bytes_at(o, off, n)), n * 8)

    def i2bits(self, v, N):
        """Float from integer-typed bits."""
        v = self.res(v, N)
        if v.__class__ is int:
            return bits_float(v, N)
        f = self.cat_float(v)
        if f is not None:
            return f
        if v.__class__ is SI and z3.is_app_of(v.e, z3.Z3_OP_ITE):
            # a choice between the bits of known floats
            leaves = {}

            def leaf(e):
                if z3.is_int_value(e):
                    leaves[e.as_long()] = True
                    return True
                return z3.is_app_of(e, z3.Z3_OP_ITE) and len(leaves) < 16 and \
                    leaf(e.arg(1)) and leaf(e.arg(2))

            if leaf(v.e):
                e = v.e
                while not z3.is_int_value(e):
                    e = e.arg(1 if self.br(SB(e.arg(0))) else 2)
                return bits_float(e.as_long() & ((1 << N) - 1), N)
        return v       # kept as raw bits; any arithmetic on it is unsupported

    def ldagg(self, a, t):
        a = self.addr(a)
        if t.k in ('a', 'vec'):
            e = t.elts[0]
            if t.k == 'vec' and e.k == 'i' and e.n < 8:
                v = self.ldi(a, t.size)
                return tuple(self.cast('trunc', self.iop('lshr', v, j, t.size * 8), t.size * 8, 1)
                             for j in range(t.n))
            return tuple(self.ldt(a + j * e.size, e) for j in range(t.n))
        return tuple(self.ldt(a + o, e) for o, e in zip(t.offs, t.elts))

    def ldt(self, a, t):
        if t.k == 'i':
            return self.ldi(a, t.size) if t.n % 8 == 0 else self.ldbits(a, t.size, t.n)
        if t.k == 'p':
            return self.ldi(a, 8)
        if t.k == 'f':
            return self.ldf(a, t.size)
        return self.ldagg(a, t)

    def sti(self, a, v, n):
        if a.__class__ is not int:
            a = self.addr(a)
        o = self.wobj(a, n)
        off = a - o.base
        if v.__class__ is int:
            if o.sym:
                self.clear(o, off, n)
            o.data[off:off + n] = v.to_bytes(n, 'little')
        else:
            self.stsym(o, off, v, n)

    def stsym(self, o, off, v, n):
        if v.__class__ is SI and n > 8:
            raise Unsupported('wide symbolic store')
        if o.sym is None:
            o.sym = {}
        self.clear(o, off, n)
        if v.__class__ is Cat:
            # split into its parts
            b = v.b
            i = 0
            while i < n:
                x = b[i]
                if x.__class__ is int:
                    o.data[off + i] = x
                    i += 1
                    continue
                val, k, m = x
                if k == 0 and i + m <= n and all(b[i + j].__class__ is tuple and b[i + j][0] is val
                                                 and b[i + j][1] == j for j in range(1, m)):
                    o.sym[off + i] = (val, m)
                    i += m
                else:
                    o.sym[off + i] = (Cat((x,)), 1)
                    i += 1
            return
        if v.__class__ is SB:
            o.data[off:off + n] = bytes(n)
            o.sym[off] = (v, 1)
            return
        o.sym[off] = (v, n)

    def clear(self, o, off, n):
        """Remove symbolic cells overlapping [off, off + n), keeping the parts outside."""
        s = o.sym
        if not s:
            return
        c = s.get(off)
        if c is not None and c[1] == n:
            del s[off]
            return
        for k in range(max(0, off - 15), off + n):
            c = s.get(k)
            if c is not None and k + c[1] > off:
                v, m = s.pop(k)
                b = None
                for j in range(m):
                    x = k + j
                    if x < off or x >= off + n:
                        if b is None:
                            b = self.bytes_of(v, m)
                        if b[j].__class__ is int:
                            o.data[x] = b[j]
                        else:
                            s[x] = (Cat((b[j],)), 1)

    def stf(self, a, v, n):
        if a.__class__ is not int:
            a = self.addr(a)
        o = self.wobj(a, n)
        off = a - o.base
        if v.__class__ is float:
            if o.sym:
                self.clear(o, off, n)
            struct.pack_into('<f' if n == 4 else '<d', o.data, off, v)
        else:
            self.stsym(o, off, v, n)

    def stagg(self, a, v, t):
        a = self.addr(a)
        if t.k in ('a', 'vec'):
            e = t.elts[0]
            for j in range(t.n):
                self.stt(a + j * e.size, v[j], e)
        else:
            for o, e, x in zip(t.offs, t.elts, v):
                self.stt(a + o, x, e)

    def stt(self, a, v, t):
        if t.k in ('i', 'p'):
            self.sti(a, v, t.size)
        elif t.k == 'f':
            self.stf(a, v, t.size)
        else:
            self.stagg(a, v, t)

    def memcpy(self, d, s, n):
        if n.__class__ is not int:
            n = self.conc_int(n, 64, 'copy size')
        if n == 0:
            return
        d = self.addr(d)
        s = self.addr(s)
        so = self.find(s, n)
        soff = s - so.base
        data = bytes(so.data[soff:soff + n])
        cells = None
        if so.sym:
            cells = []
            for k in sorted(so.sym):
                v, m = so.sym[k]
                if k + m <= soff or k >= soff + n:
                    continue
                if k >= soff and k + m <= soff + n:
                    cells.append((k - soff, v, m))
                else:
                    b = self.bytes_of(v, m)
                    for j in range(m):
                        if soff <= k + j < soff + n:
                            if b[j].__class__ is int:
                                data = data[:k + j - soff] + bytes([b[j]]) + data[k + j - soff + 1:]
                            else:
                                cells.append((k + j - soff, Cat((b[j],)), 1))
        o = self.wobj(d, n)
        off = d - o.base
        if o.sym:
            self.clear_range(o, off, n)
        o.data[off:off + n] = data
        if cells:
            if o.sym is None:
                o.sym = {}
            for k, v, m in cells:
                o.sym[off + k] = (v, m)

    def clear_range(self, o, off, n):
        s = o.sym
        for k in [k for k in s if k + s[k][1] > off and k < off + n]:
            v, m = s.pop(k)
            if k < off or k + m > off + n:
                b = self.bytes_of(v, m)
                for j in range(m):
                    x = k + j
                    if x < off or x >= off + n:
                        if b[j].__class__ is int:
                            o.data[x] = b[j]
                        else:
                            s[x] = (Cat((b[j],)), 1)

    def memset(self, d, v, n):
        if n.__class__ is not int:
            n = self.conc_int(n, 64, 'set size')
        if n == 0:
            return
        d = self.addr(d)
        v = self.conc_int(v, 8)
        o = self.wobj(d, n)
        off = d - o.base
        if o.sym:
            self.clear_range(o, off, n)
        o.data[off:off + n] = bytes([v]) * n

    def alloca(self, n, al):
        st = self.st
        n = self.conc_int(n, 64)
        al = max(al, 16)
        a = (st.snext + al - 1) // al * al
        st.snext = a + n + 16
        o = Obj(a, n, bytearray(n), st.token)
        st.sobjs[a] = o
        st.sbases.append(a)
        st.frames[-1].allocas.append(a)
        return a

    def heap(self, n, al=16):
        st = self.st
        if n > 1 << 26:
            raise Unsupported('allocation of %d bytes' % n)
        a = (st.hnext + al - 1) // al * al
        st.hnext = a + n + 32
        o = Obj(a, n, bytearray(n), st.token)
        st.hobjs[a] = o
        st.hbases.append(a)
        return a

    # ------------------------------------------------------------ helpers used by generated code
    def bitcast(self, v, t1, t2):
        if t1.k == 'f' and t2.k == 'i':
            if v.__class__ is float:
                return float_bits(v, t1.n)
            n = t1.n // 8
            if v.__class__ in (SI, Cat):
                return v
            return Cat(tuple((v, k, n) for k in range(n)))
        if t1.k == 'i' and t2.k == 'f':
            return self.i2bits(v, t1.n)
        if t1.k == 'vec' and t2.k == 'i':
            e = t1.elts[0]
            out = 0
            for j, x in enumerate(v):
                if x.__class__ is not int:
                    x = self.conc_int(x, e.n)
                out |= x << (j * e.n)
            return out
        if t1.k == 'i' and t2.k == 'vec':
            e = t2.elts[0]
            v = self.conc_int(v, t1.n)
            return tuple((v >> (j * e.n)) & ((1 << e.n) - 1) for j in range(t2.n))
        if t1.k == 'vec' and t2.k == 'vec':
            e, g = t1.elts[0], t2.elts[0]
            if e is g:
                return v
            w = 0
            for j, x in enumerate(v):
                x = float_bits(x, e.n) if x.__class__ is float else self.conc_int(x, e.n)
                w |= x << (j * e.n)
            out = [(w >> (j * g.n)) & ((1 << g.n) - 1) for j in range(t2.n)]
            return tuple(bits_float(x, g.n) for x in out) if g.k == 'f' else tuple(out)
        return v

    def gep(self, base, terms, off):
        r = self.iop('add', base, off & M64, 64) if off else base
        for x, sz in terms:
            x = self.res(x)
            if x.__class__ is int:
                r = self.iop2('add', r, (x * sz) & M64, 64)
            else:
                r = self.iop('add', r, self.iop('mul', x, sz, 64), 64)
        return r

    def switch(self, c, N, vals):
        c = self.res(c, N)
        if c.__class__ is int:
            return c
        c = self.as_si(c, N)
        if c.__class__ is int:
            return c
        rest = []
        for v in vals:
            r = self.icmp('eq', c, v, N)
            if r.__class__ is int:
                if r:
                    return v
            else:
                rest.append((v, r))
        for v, r in rest:
            if self.br(r):
                return v
        return -1

    def insertvalue(self, agg, v, idx):
        l = list(agg)
        if len(idx) == 1:
            l[idx[0]] = v
        else:
            l[idx[0]] = self.insertvalue(l[idx[0]], v, idx[1:])
        return tuple(l)

    def cmpxchg(self, a, e, n, t):
        old = self.ldt(a, t)
        c = self.icmp('eq', old, e, t.n)
        c = self.br(c)
        if c:
            self.stt(a, n, t)
        return (old, c)

    def atomicrmw(self, op, a, v, t):
        old = self.ldt(a, t)
        if op == 'xchg':
            n = v
        elif op in ('add', 'sub', 'and', 'or', 'xor'):
            n = self.iop(op, old, v, t.n)
        elif op in ('umax', 'umin'):
            n = self.minmax(op, old, v, t.n)
        else:
            raise Unsupported('atomicrmw ' + op)
        self.stt(a, n, t)
        return old

    def satop(self, base, a, b, N):
        a = self.res(a, N)
        b = self.res(b, N)
        s = base[0] == 's'
        f = self.sig if s else self.uns
        if a.__class__ is not int or b.__class__ is not int:
            a = self.as_si(a, N)
            b = self.as_si(b, N)
        x, xl, xh = f(a, N)
        y, yl, yh = f(b, N)
        if base[1:] == 'add':
            e, lo, hi = x + y, xl + yl, xh + yh
        else:
            e, lo, hi = x - y, xl - yh, xh - yl
        mn, mx = (-(1 << (N - 1)), (1 << (N - 1)) - 1) if s else (0, (1 << N) - 1)
        if e.__class__ is int:
            return max(mn, min(mx, e)) & ((1 << N) - 1)
        if lo < mn:
            e = z3.If(e < mn, z3.IntVal(mn), e)
        if hi > mx:
            e = z3.If(e > mx, z3.IntVal(mx), e)
        return self.wrap(e, max(mn, min(mx, lo)), max(mn, min(mx, hi)), N)

    def bitfn(self, fn, v, N):
        v = self.res(v, N)
        if v.__class__ is not int:
            if fn == 'abs':
                v = self.as_si(v, N)
                if v.__class__ is not int:
                    x, lo, hi = self.sig(v, N)
                    if lo >= 0:
                        return SI(x, lo, hi)
                    return SI(z3.If(x >= 0, x, -x), 0, max(-lo, hi))
            if fn == 'bswap' and v.__class__ is Cat:
                return self.cat_norm(tuple(reversed(v.b)))
            v = self.conc_int(v, N)
        if fn == 'ctpop':
            return bin(v).count('1')
        if fn == 'ctlz':
            return N - v.bit_length()
        if fn == 'cttz':
            return (v & -v).bit_length() - 1 if v else N
        if fn == 'bswap':
            return int.from_bytes(v.to_bytes(N // 8, 'little'), 'big')
        if fn == 'bitreverse':
            return int(bin(v)[2:].zfill(N)[::-1], 2)
        return (-v) & ((1 << N) - 1) if v >> (N - 1) else v

    def funnel(self, fn, a, b, c, N):
        a, b, c = self.conc_int(a, N), self.conc_int(b, N), self.conc_int(c, N) % N
        w = (a << N) | b
        if fn == 'fshl':
            return (w << c >> N) & ((1 << N) - 1)
        return (w >> c) & ((1 << N) - 1)

    def cmp3(self, fn, a, b, N, R):
        lt = self.icmp('ult' if fn == 'ucmp' else 'slt', a, b, N)
        if self.br(lt):
            return (1 << R) - 1
        return 0 if self.br(self.icmp('eq', a, b, N)) else 1

    def fcopysign(self, a, b, prec):
        a, b = self.res(a), self.res(b)
        if a.__class__ is float and b.__class__ is float:
            return math.copysign(a, b)
        neg = self.br(self.fcmp('olt', b, 0.0, prec)) if b.__class__ is not float else math.copysign(1, b) < 0
        x = self.fabs(a, prec)
        return self.fneg(x, prec) if neg else x

    def fpclass(self, v, mask, prec):
        v = self.res(v)
        if v.__class__ is float:
            neg = math.copysign(1, v) < 0
            tiny = 2.0 ** -126 if prec == 32 else 2.0 ** -1022
            if v != v:
                k = 2
            elif v == INF:
                k = 512
            elif v == -INF:
                k = 4
            elif v == 0:
                k = 32 if neg else 64
            elif abs(v) < tiny:
                k = 16 if neg else 128
            else:
                k = 8 if neg else 256
            return 1 if mask & k else 0
        if v.__class__ is FP:
            self.st.fp = self.st.fp or 1
            x = v.e
            n = z3.fpIsNegative(x)
            p = z3.fpIsPositive(x)
            ds = []
            if mask & 3:
                ds.append(z3.fpIsNaN(x))
            for bit, e in ((4, z3.And(z3.fpIsInf(x), n)), (8, z3.And(z3.fpIsNormal(x), n)),
                           (16, z3.And(z3.fpIsSubnormal(x), n)), (32, z3.And(z3.fpIsZero(x), n)),
                           (64, z3.And(z3.fpIsZero(x), p)), (128, z3.And(z3.fpIsSubnormal(x), p)),
                           (256, z3.And(z3.fpIsNormal(x), p)), (512, z3.And(z3.fpIsInf(x), p))):
                if mask & bit:
                    ds.append(e)
            return SB(z3.Or(*ds))
        raise Unsupported('fpclass')

    def loadrel(self, p, off):
        p = self.addr(p)
        off = self.conc_int(off, 64)
        v = self.conc_int(self.ldi((p + off) & M64, 4), 32)
        if v >> 31:
            v -= 1 << 32
        return (p + v) & M64

    def vreduce(self, op, v, N):
        r = v[0]
        for x in v[1:]:
            if op in ('or', 'and', 'xor', 'add', 'mul'):
                r = self.iop(op, r, x, N)
            elif op in ('umax', 'umin', 'smax', 'smin'):
                r = self.minmax(op, r, x, N)
            else:
                raise Unsupported('reduce ' + op)
        return r

    def movmsk(self, v):
        return sum(((self.conc_int(x, 8) >> 7) & 1) << j for j, x in enumerate(v))

    def callee(self, a):
        a = self.addr(a)
        nm = self.prog.fname.get(a)
        if nm is None:
            raise MemError('call of 0x%x' % a)
        if nm not in self.prog.mod.fspan:
            raise Unsupported('indirect call of ' + nm)
        return self.prog.fn(nm)

    def unsupported(self, what):
        raise Unsupported(str(what))

    def unsupported_call(self, nm):
        raise Unsupported('external ' + nm)

    def unreachable(self):
        raise Violation('unreachable code reached')

    def panic(self, nm):
        raise Violation('panic ' + nm)

    # ------------------------------------------------------------ externals
    def x_nop(self, *a):
        return 0

    def x_abort(self):
        raise Violation('abort')

    def x_malloc(self, n):
        return self.heap(self.conc_int(n, 64, 'allocation size'))

    def x_calloc(self, n, m):
        return self.heap(self.conc_int(n, 64, 'allocation size') * self.conc_int(m, 64, 'allocation size'))

    def x_posix_memalign(self, pp, al, n):
        n = self.conc_int(n, 64, 'allocation size')
        self.sti(pp, self.heap(n, max(16, self.conc_int(al, 64))), 8)
        return 0

    def x_realloc(self, p, n):
        n = self.conc_int(n, 64, 'allocation size')
        p = self.addr(p)
        if p == 0:
            return self.heap(n)
        o = self.st.hobjs.get(p)
        if o is None:
            raise MemError('realloc of 0x%x' % p)
        q = self.heap(n)
        self.memcpy(q, p, min(n, o.size))
        self.x_free(p)
        return q

    def x_free(self, p):
        p = self.addr(p)
        if p == 0:
            return
        st = self.st
        if p not in st.hobjs:
            raise MemError('free of 0x%x' % p)
        del st.hobjs[p]
        st.hbases.pop(bisect.bisect_left(st.hbases, p))
        st.last = None

    def x_bcmp(self, a, b, n):
        n = self.conc_int(n, 64, 'compare size')
        a, b = self.addr(a), self.addr(b)
        es = []
        for k in range(n):
            r = self.icmp('eq', self.ldi(a + k, 1), self.ldi(b + k, 1), 8)
            if r.__class__ is int:
                if not r:
                    return 1
            else:
                es.append(r.e)
        if not es:
            return 0
        return SI(z3.If(z3.And(*es), z3.IntVal(0), z3.IntVal(1)), 0, 1)

    def x_memcmp(self, a, b, n):
        n = self.conc_int(n, 64, 'compare size')
        a, b = self.addr(a), self.addr(b)
        for k in range(n):
            x, y = self.ldi(a + k, 1), self.ldi(b + k, 1)
            if not self.br(self.icmp('eq', x, y, 8)):
                return (1 << 32) - 1 if self.br(self.icmp('ult', x, y, 8)) else 1
        return 0

    def x_strlen(self, p):
        p = self.addr(p)
        k = 0
        while not self.br(self.icmp('eq', self.ldi(p + k, 1), 0, 8)):
            k += 1
        return k

    def x_getenv(self, p):
        return 0

    def x_write(self, fd, p, n):
        return n

    def x___errno_location(self):
        st = self.st
        if not st.errno:
            st.errno = self.heap(8)
        return st.errno

    def x_random_keys(self):
        return (0x0706050403020100, 0x0f0e0d0c0b0a0908)

    # ------------------------------------------------------------ harness interface
    def s64(self, v):
        return v - (1 << 64) if v >> 63 else v

    def x_lv_case(self, n):
        st = self.st
        n = self.s64(self.conc_int(n, 64))
        k = st.ncase
        if k < len(st.cases):
            v = st.cases[k]
            st.ncase += 1
            st.inputs.append(('i', v))
            return v
        raise NeedCase(n)

    def x_lv_tier(self):
        v = 1 if self.opts.get('tier') == 'thorough' else 0
        self.st.inputs.append(('i', v))
        return v

    def x_lv_i64(self, lo, hi):
        lo, hi = self.s64(self.conc_int(lo, 64)), self.s64(self.conc_int(hi, 64))
        st = self.st
        if lo == hi:
            st.inputs.append(('i', lo))
            return lo & M64
        if self.replay_vals is not None:
            v = self.replay_vals[len(st.inputs)]
            st.inputs.append(('i', v))
            return v & M64
        e = z3.Int('i%d' % len(st.inputs))
        c = z3.And(e >= lo, e <= hi)
        self.add(c, e, zint(max(lo, min(hi, 0))))
        v = SI(e, lo, hi)
        st.inputs.append(('i', v))
        return v

    def x_lv_fix(self, lo, hi, sh):
        lo, hi = self.s64(self.conc_int(lo, 64)), self.s64(self.conc_int(hi, 64))
        sh = self.conc_int(sh, 32)
        st = self.st
        if lo == hi:
            v = float(Fraction(lo, 1 << sh))
            st.inputs.append(('f', v))
            return v
        if self.replay_vals is not None:
            v = self.replay_vals[len(st.inputs)]
            st.inputs.append(('f', v))
            return v
        e = z3.Int('x%d' % len(st.inputs))
        self.add(z3.And(e >= lo, e <= hi), e, zint(max(lo, min(hi, 0))))
        v = FX(e, sh, lo, hi)
        st.inputs.append(('f', v))
        return v

    def x_lv_real(self, lo, hi):
        st = self.st
        if self.replay_vals is not None:
            v = self.replay_vals[len(st.inputs)]
            st.inputs.append(('f', v))
            return v
        e = z3.Real('r%d' % len(st.inputs))
        lo, hi = Fraction(lo), Fraction(hi)
        self.add(z3.And(e >= fr2s(lo), e <= fr2s(hi)), e, fr2s(lo))
        v = FR(e, lo, hi)
        st.inputs.append(('f', v))
        return v

    def x_lv_f32(self):
        st = self.st
        if self.replay_vals is not None:
            v = self.replay_vals[len(st.inputs)]
            st.inputs.append(('f', v))
            return v
        b = z3.BitVec('b%d' % len(st.inputs), 32)
        v = FP(z3.fpBVToFP(b, FS[32]), b)
        st.fp = st.fp or 1
        if st.model is not None:
            st.model.update_value(b, z3.BitVecVal(0x3f800000, 32))
        st.inputs.append(('f', v))
        return v

    def x_lv_assume(self, c):
        c = self.res(c, 1)
        if c.__class__ is int:
            if not c:
                self.assume_false += 1
                raise PathEnd('assume')
            return
        if c.__class__ is not SB:
            c = self.to_bool(self.as_si(c, 1))
            return self.x_lv_assume(c)
        self.assume(c.e)
        self.know(c.e, 1)

    def label(self, p, n):
        n = self.conc_int(n, 64)
        p = self.addr(p)
        o = self.find(p, n)
        return bytes(o.data[p - o.base:p - o.base + n]).decode()

    def x_lv_check(self, c, p, n):
        lab = self.label(p, n)
        rec = self.checks.setdefault(lab, [0, 0, 0, 0])
        c = self.res(c, 1)
        if c.__class__ is not int and c.__class__ is not SB:
            c = self.to_bool(self.as_si(c, 1))
        if c.__class__ is int:
            if c:
                rec[0] += 1
                return
            rec[3] += 1
            self.report('check ' + lab, None)
            raise PathEnd('violated')
        ne = z3.Not(c.e)
        r, m = self.check(ne)
        if r == 'unsat':
            rec[1] += 1
            self.know(c.e, 1)
            return
        if r == 'unknown':
            rec[2] += 1
            self.undecided = True
            self.notes.add('undecided check ' + lab)
            self.report('undecided check ' + lab, None)
            self.add(c.e)
            return
        rec[3] += 1
        self.report('check ' + lab, m, ne)
        # go on with the executions that satisfy it
        ok, m = self.feasible(c.e)
        if not ok:
            raise PathEnd('violated')
        self.st.pc.append(c.e)
        self.st.model = m
        self.know(c.e, 1)

    def x_lv_cover(self, p, n):
        lab = self.label(p, n)
        if self.covers.get(lab):
            self.covers[lab] += 1
            return
        # a witness: the path must be satisfiable
        if self.st.model is None:
            r, m = self.check()
            if r != 'sat':
                return
            self.st.model = m
        self.covers[lab] = 1

    def x_lv_expect_panic(self, p, n):
        self.st.expect = self.label(p, n)

    # ------------------------------------------------------------ reporting
    def report(self, label, m, extra=None):
        st = self.st
        if m is None:
            if st.model is not None:
                m = st.model
            else:
                r, m = self.check()
                if r == 'unsat':
                    return
                if r == 'unknown':
                    self.notes.add('undecided path to ' + label)
                    return
        cnt = sum(1 for v in self.violations if v['label'] == label)
        if cnt >= self.opts.get('max_cex', 3):
            return
        vals = self.model_inputs(m)
        alts = []
        # reals may not be f32 values: offer other models of the same path
        if any(v.__class__ is FR for _, v in st.inputs) and cnt == 0:
            alts = self.other_models(extra, m)
        if cnt == 0:
            alts += self.more_models(extra, m)
        v = dict(label=label, inputs=vals, alts=alts, cases=list(st.cases),
                 kinds=['r' if v.__class__ is FR else '' for _, v in st.inputs])
        self.violations.append(v)
        if self.on_violation:
            self.on_violation(v)

    def model_inputs(self, m):
        out = []
        for k, v in self.st.inputs:
            c = v.__class__
            if c is int or c is float:
                out.append((k, v))
            elif c is SI:
                out.append((k, m.eval(v.e, model_completion=True).as_long()))
            elif c is FX:
                out.append((k, float(m.eval(v.n, model_completion=True).as_long() * p2(v.s))))
            elif c is FR:
                q = m.eval(v.v, model_completion=True)
                if z3.is_algebraic_value(q):
                    q = q.approx(20)
                out.append((k, f32(float(q.as_fraction()))))
            elif c is FP:
                b = m.eval(v.bv, model_completion=True).as_long()
                out.append(('b', b))
        return out

    def more_models(self, extra, m):
        """Models with other integer inputs: roundings in a model need not be the real ones."""
        st = self.st
        out, t0, saved = [], time.time(), st.pc
        es = [v.e if v.__class__ is SI else v.n for _, v in st.inputs if v.__class__ in (SI, FX)]
        if not es or st.fp:
            return out
        es = es[-12:]
        try:
            st.pc = list(saved) + ([extra] if extra is not None else [])
            while len(out) < 30 and time.time() - t0 < 6:
                # a different value of one of them each time, all different from the last model when that is possible
                old = [m.eval(e, model_completion=True) for e in es]
                k = len(out) % len(es)
                st.pc.append(es[k] != old[k])
                r, m2 = self.check(z3.Sum([z3.If(e != o, zint(1), zint(0)) for e, o in zip(es, old)]) * 2 >= len(es))
                if r != 'sat':
                    r, m2 = self.check()
                    if r != 'sat':
                        break
                m = m2
                out.append(self.model_inputs(m))
        except z3.Z3Exception:
            pass
        finally:
            st.pc = saved
        return out

    def other_models(self, extra, m0):
        """Models whose inputs sit further inside the violating region."""
        st = self.st
        out = []
        saved = st.pc
        try:
            st.pc = list(saved) + ([extra] if extra is not None else [])
            rs = [v.v for _, v in st.inputs if v.__class__ is FR]
            for shift in (8, 4, 12):
                g = []
                for k, r in enumerate(rs):
                    i = self.fresh('g')
                    g.append(r * (1 << shift) == z3.ToReal(i))
                r, m = self.check(z3.And(*g))
                if r == 'sat':
                    out.append(self.model_inputs(m))
        except Exception:
            pass
        finally:
            st.pc = saved
        return out

    # ------------------------------------------------------------ running
    replay_vals = None

    def start(self, harness, cases=()):
        st = State()
        st.cases = tuple(cases)
        s = z3.Solver()
        s.check()
        st.model = s.model()
        fn = self.prog.fn('@' + harness)
        st.frames.append(Frame(fn, [None] * fn.nslots, (fn, 0, 0), -1))
        return st

    def explore(self, harness, cases=(), budget_s=None):
        """Explore all paths. -> None, or n when a further case split is needed."""
        work = [self.start(harness, cases)]
        t_end = time.time() + budget_s if budget_s else None
        while work:
            if t_end and time.time() > t_end:
                self.notes.add('time budget of %ds exhausted with %d open paths' % (budget_s, len(work)))
                self.undecided = True
                for st in work[-3:]:
                    self.st = st
                    self.report('unexplored', st.model)
                break
            st = work.pop()
            try:
                kids = self.run(st)
            except NeedCase as e:
                return e.n
            if kids:
                work.extend(reversed(kids))
        return None

    def run(self, st):
        """Run a path until it ends or forks."""
        self.st = st
        prog = self.prog
        touched = self.touched
        frames = st.frames
        steps = st.steps
        limit = self.max_steps
        fr = frames[-1]
        L = fr.L
        cf, b, k = fr.code
        code = cf.at(b, k)
        try:
            while True:
                touched.add(code)
                steps += code.n
                if steps > limit:
                    st.steps = steps
                    raise Violation('no end after %d steps' % limit)
                r = code.run(L)
                if r.__class__ is int:
                    code = cf.codes[r]
                    if code is None:
                        code = cf.compile(r, 0)
                elif r.__class__ is Call:
                    fr.code = r.code
                    g = r.fn
                    if g.noreturn:
                        raise Violation('panic ' + g.name)
                    L = list(r.args)
                    if len(L) != g.nparams:
                        raise IRError('argument count')
                    L.extend([None] * (g.nslots - len(L)))
                    fr = Frame(g, L, None, r.dest)
                    frames.append(fr)
                    if len(frames) > 400:
                        raise Unsupported('call depth')
                    cf = g
                    code = g.entry()
                elif r.__class__ is Ret:
                    if fr.allocas:
                        so = st.sobjs
                        for a in fr.allocas:
                            del so[a]
                        del st.sbases[-len(fr.allocas):]
                        st.snext = fr.allocas[0]
                        st.last = None
                    frames.pop()
                    dest = fr.dest
                    if not frames:
                        st.steps = steps
                        self.finish(st)
                        return None
                    fr = frames[-1]
                    L = fr.L
                    if dest >= 0:
                        L[dest] = r.v
                    cf, b, k = fr.code
                    code = cf.at(b, k)
                else:
                    raise IRError('block result %r' % (r,))
        except Fork as e:
            st.steps = steps
            tb = e.__traceback__
            c = code.run.__code__
            line = None
            while tb is not None:
                if tb.tb_frame.f_code is c:
                    line = tb.tb_lineno
                    break
                tb = tb.tb_next
            e.__traceback__ = None
            fr.code = (cf, code.b, code.at_line(line))
            kids = []
            n = len(e.alts)
            for j, (con, known, m) in enumerate(e.alts):
                s = st.clone() if j < n - 1 else st
                if s is st:
                    s.token = object()
                    s.last = None
                if con is not None:
                    s.pc.append(con)
                s.known.update(known)
                s.model = m
                kids.append(s)
            return kids
        except PathEnd as e:
            st.steps = steps
            self.ended[e.why] = self.ended.get(e.why, 0) + 1
            self.stats.steps += steps
            return None
        except Violation as e:
            st.steps = steps
            self.stats.steps += steps
            if st.expect is not None and e.label.startswith('panic'):
                self.paths += 1
                self.covers['panic: ' + st.expect] = self.covers.get('panic: ' + st.expect, 0) + 1
                self.sample(st)
                return None
            if getattr(st, 'doomed', None) is None:
                where = self.where(st, code)
                self.report(e.label + ' at ' + where, e.model)
            self.ended['violation'] = self.ended.get('violation', 0) + 1
            return None
        except NeedCase:
            raise
        except (Unsupported, IRError) as e:
            if not e.args or '[in ' not in str(e.args[0]):
                e.args = ('%s [in %s]' % (e.args[0] if e.args else '', self.where(st, code)),)
            # a path that cannot be executed leaves the property undecided
            st.steps = steps
            self.stats.steps += steps
            self.undecided = True
            if os.environ.get('LV_TB'):
                import traceback; traceback.print_exc()
            self.notes.add('unsupported: ' + str(e.args[0])[:300])
            try:
                self.report('unsupported', None)      # a native run of an input of this path may settle it
            except Unsupported:
                pass
            return None

    def where(self, st, code):
        out = []
        for fr in st.frames[-1:]:
            try:
                blk = code.fn.f.block_ins(code.b)
                ins = blk.ins[min(code.k + code.n - 1, len(blk.ins) - 1)]
                for f, l, fn in self.prog.mod.loc_lines(ins.dbg):
                    if f and '/repo/' in f:
                        out.append('%s:%d' % (f, l))
                        break
                else:
                    out.append(code.fn.name[:80])
            except Exception:
                out.append(code.fn.name[:80])
        return ' '.join(out)

    def finish(self, st):
        self.stats.steps += st.steps
        self.paths += 1
        if st.expect is not None:
            self.report('missing panic: ' + st.expect, None)
        self.sample(st)

    def sample(self, st):
        """Keep the inputs of a few paths, spread over the exploration, for a native run."""
        self.nsample += 1
        k = self.opts.get('samples', 2)
        if self.nsample & (self.nsample - 1) and len(self.samples) >= k:
            return
        m = st.model
        if m is None:
            r, m = self.check()
            if r != 'sat':
                return
        x = self.model_inputs(m)
        if len(self.samples) < k:
            self.samples.append(x)
        else:
            self.samples[self.nsample.bit_length() % k] = x

    def coverage(self):
        """-> ({function: number of distinct instructions executed}, {file: lines}) of the touched code."""
        funcs, lines = {}, {}
        for code in self.touched:
            c = self.cov_cache.get(code)
            if c is None:
                loc = set()
                for ins in code.fn.f.block_ins(code.b).ins[code.k:]:
                    if ins.dbg is not None:
                        for f, l, fn in self.prog.mod.loc_lines(ins.dbg):
                            if f and f.startswith('/repo/') and l:
                                loc.add((f[6:], l, fn))
                c = self.cov_cache[code] = loc
            for f, l, fn in c:
                lines.setdefault(f, set()).add(l)
                funcs.setdefault(fn + ' (' + f + ')', set()).add(l)
        return {k: len(v) for k, v in funcs.items()}, {k: sorted(v) for k, v in lines.items()}


class NeedCase(Exception):
    def __init__(self, n):
        self.n = n
