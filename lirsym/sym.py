"""Symbolic operations and solver interface."""
import ctypes
import math
import os
import struct
import time
from fractions import Fraction

import z3

from .values import *

INF = float('inf')
FH_INF = z3.Q(1 << 129, 1)
_libm = ctypes.CDLL('libm.so.6')
for _n in ('logf', 'expf', 'sinf', 'cosf'):
    getattr(_libm, _n).restype = ctypes.c_float
    getattr(_libm, _n).argtypes = [ctypes.c_float]
for _n in ('log', 'exp', 'sin', 'cos'):
    getattr(_libm, _n).restype = ctypes.c_double
    getattr(_libm, _n).argtypes = [ctypes.c_double]


def f32(x):
    return ctypes.c_float(x).value


def rnd(x, prec):
    return ctypes.c_float(x).value if prec == 32 else x


def float_bits(x, n):
    if n == 32:
        return struct.unpack('<I', struct.pack('<f', x))[0]
    return struct.unpack('<Q', struct.pack('<d', x))[0]


def bits_float(b, n):
    if n == 32:
        return struct.unpack('<f', struct.pack('<I', b))[0]
    return struct.unpack('<d', struct.pack('<Q', b))[0]


def fround_away(x):
    if math.isinf(x) or math.isnan(x) or abs(x) >= 2.0 ** 52:
        return x
    r = math.floor(abs(x))
    if abs(x) - r >= 0.5:
        r += 1
    return math.copysign(r, x)


def p2(s):
    """2^-s."""
    return Fraction(1, 1 << s) if s >= 0 else Fraction(1 << -s)


def fr2s(fr):
    """z3 rational from a Fraction."""
    return z3.Q(fr.numerator, fr.denominator)


FS = {32: z3.Float32(), 64: z3.Float64()}
RNE = z3.RNE()
RNA = z3.RoundNearestTiesToAway()
TRUE = z3.BoolVal(True)
FALSE = z3.BoolVal(False)


def zint(v):
    return z3.IntVal(v)


def zadd(x, k):
    """x + k, with constants added up."""
    if k.__class__ is int and z3.is_app_of(x, z3.Z3_OP_ADD) and x.num_args() == 2 and z3.is_int_value(x.arg(1)):
        k += x.arg(1).as_long()
        x = x.arg(0)
        if k == 0:
            return x
    return x + k


class Stats:
    def __init__(self):
        self.queries = 0
        self.sat = 0
        self.unsat = 0
        self.unknown = 0
        self.time = 0.0
        self.max_time = 0.0
        self.model_hits = 0
        self.steps = 0


class Engine:
    """Solver-side of the executor. self.st is the current path state; it has: pc (list of z3 Bools), known (dict),
    model, fcache (dict), fp (bool: IEEE floating point terms occur), inputs (list)."""

    def __init__(self, opts):
        self.opts = opts
        self.stats = Stats()
        self.st = None
        self.solver = z3.Solver()
        self.timeout = int(opts.get('timeout_ms', 20000))
        self.solver.set('timeout', min(self.timeout, int(opts.get('first_ms', 2000))))
        if opts.get('arith'):
            self.solver.set('arith.solver', opts['arith'])
        self.stack = []
        self.uid = 0
        self.dump = None

    # ------------------------------------------------------------------ solver
    def fresh(self, name, sort='i'):
        self.uid += 1
        nm = '%s!%d' % (name, self.uid)
        return z3.Int(nm) if sort == 'i' else z3.Real(nm) if sort == 'r' else z3.Bool(nm)

    def sync(self):
        pc = self.st.pc
        stk = self.stack
        n = 0
        m = min(len(pc), len(stk))
        while n < m and pc[n] is stk[n]:
            n += 1
        if len(stk) > n:
            self.solver.pop(len(stk) - n)
            del stk[n:]
        for c in pc[n:]:
            self.solver.push()
            self.solver.add(c)
            stk.append(c)

    def check(self, extra=None):
        """-> (result string, model or None) of pc and extra."""
        t0 = time.time()
        st = self.st
        if st.fp and self.opts.get('fp_lemmas') and self.fp_abstract_unsat(extra):
            r, m = z3.unsat, None
        elif st.fp:
            s = z3.Tactic('qffp').solver() if st.fp == 1 else z3.Solver()
            s.set('timeout', self.opts.get('fp_timeout_ms', 60000))
            for c in st.pc:
                s.add(c)
            if extra is not None:
                s.add(extra)
            r = s.check()
            m = s.model() if r == z3.sat else None
        elif self.opts.get('havoc') == 2 and extra is not None and self.nl_abstract_unsat(extra):
            r, m = z3.unsat, None
        else:
            self.sync()
            s = self.solver
            if extra is not None:
                s.push()
                s.add(extra)
            r = s.check()
            m = s.model() if r == z3.sat else None
            if extra is not None:
                s.pop()
            if r == z3.unknown:
                # retry from scratch, alternating two arithmetic cores: each is lost on queries the other answers at once
                base = self.opts.get('first_ms', 2000)
                for core, ms in ((2, 2 * base), (6, 2 * base), (2, self.timeout), (6, self.timeout)):
                    s2 = z3.SimpleSolver()
                    s2.set('timeout', min(ms, self.timeout))
                    s2.set('arith.solver', core)
                    for c in st.pc:
                        s2.add(c)
                    if extra is not None:
                        s2.add(extra)
                    r = s2.check()
                    if r != z3.unknown:
                        m = s2.model() if r == z3.sat else None
                        break
        dt = time.time() - t0
        q = self.stats
        q.queries += 1
        q.time += dt
        if dt > q.max_time:
            q.max_time = dt
        if r == z3.sat:
            q.sat += 1
            return 'sat', m
        if r == z3.unsat:
            q.unsat += 1
            return 'unsat', None
        q.unknown += 1
        return 'unknown', None

    def nl_abstract_unsat(self, extra):
        """Unsatisfiable already when each product of variables is any value (squares: any but negative)."""
        s = z3.SimpleSolver()
        s.set('timeout', self.opts.get('first_ms', 2000))
        for c in list(self.st.pc) + [extra]:
            s.add(self.nl_linear(c, s))
        return s.check() == z3.unsat

    def nl_linear(self, c, s):
        """c with products of variables replaced by variables."""
        memo = self.__dict__.setdefault('nl_memo', {})
        hit = memo.get(c.get_id())
        if hit is None:
            terms, seen, todo = [], set(), [c]
            while todo:
                e = todo.pop()
                if e.get_id() in seen:
                    continue
                seen.add(e.get_id())
                if z3.is_mul(e) and sum(not z3.is_rational_value(x) and not z3.is_int_value(x) for x in e.children()) > 1:
                    terms.append(e)
                else:
                    todo += e.children()
            sub, pos = [], []
            for e in terms:
                k = [x for x in e.children() if not z3.is_rational_value(x)]
                v = z3.Const('nl!%d' % e.get_id(), e.sort())
                memo['t', e.get_id()] = (e, v)      # keeps the term, hence its id, alive
                sub.append((e, v))
                if len(k) == len(e.children()) == 2 and k[0].eq(k[1]):
                    pos.append(v >= 0)
            hit = memo[c.get_id()] = (z3.substitute(c, *sub) if sub else c, pos, c)
        for v in hit[1]:
            s.add(v)
        return hit[0]

    def fp_abstract_unsat(self, extra):
        """Unsatisfiable already when sums, differences and quotients are any values of which only this is known: when
        they are NaN, and that rounding makes them monotone in each operand (a weakening of pc and extra)."""
        cs = list(self.st.pc) + ([extra] if extra is not None else [])
        seen, terms, subst = {}, [], []

        def walk(e):
            if e.get_id() in seen:
                return seen[e.get_id()][1]
            ch = [walk(c) for c in e.children()] if z3.is_app(e) else []
            r = e
            if ch and any(not a.eq(b) for a, b in zip(ch, e.children())):
                r = e.decl()(*ch)
            if z3.is_app(e) and e.decl().kind() in (z3.Z3_OP_FPA_ADD, z3.Z3_OP_FPA_SUB, z3.Z3_OP_FPA_DIV):
                f = z3.FreshConst(e.sort(), 'abs')
                terms.append((e.decl().kind(), ch[-2], ch[-1], f))
                r = f
            seen[e.get_id()] = (e, r)
            return r
        cs = [walk(c) for c in cs]
        if not terms:
            return False
        nan, isinf, neg = z3.fpIsNaN, z3.fpIsInf, z3.fpIsNegative
        le = z3.fpLEQ
        for i, (k, x, y, r) in enumerate(terms):
            z = z3.FPVal(0.0, r.sort())
            if k == z3.Z3_OP_FPA_DIV:
                cs.append(z3.Implies(z3.And(z3.fpIsZero(x), z3.Not(nan(r))), z3.fpIsZero(r)))
                bad = z3.Or(z3.And(z3.fpIsZero(x), z3.fpIsZero(y)), z3.And(isinf(x), isinf(y)))
                cs.append(z3.Implies(z3.And(z3.Not(nan(r)), neg(x) == neg(y)), z3.fpGEQ(r, z)))
                cs.append(z3.Implies(z3.And(z3.Not(nan(r)), neg(x) != neg(y)), z3.fpLEQ(r, z)))
                cs.append(z3.Implies(z3.And(z3.Not(nan(r)), neg(x) == neg(y)), z3.Not(neg(r))))
            else:
                same = neg(x) == neg(y)
                bad = z3.And(isinf(x), isinf(y), z3.Not(same) if k == z3.Z3_OP_FPA_ADD else same)
                if k == z3.Z3_OP_FPA_SUB:
                    cs.append(z3.Implies(z3.And(le(y, z), z3.Not(nan(x)), z3.Not(bad)), le(x, r)))
                    cs.append(z3.Implies(z3.And(le(z, y), z3.Not(nan(x)), z3.Not(bad)), le(r, x)))
                    cs.append(z3.Implies(z3.And(le(y, x), z3.Not(bad)), z3.And(le(z, r), z3.Not(neg(r)))))
                if k == z3.Z3_OP_FPA_ADD:
                    for u, v in ((x, y), (y, x)):
                        cs.append(z3.Implies(z3.And(le(z, u), z3.Not(nan(v)), z3.Not(bad)), le(v, r)))
            cs.append(nan(r) == z3.Or(nan(x), nan(y), bad))
            for k2, x2, y2, r2 in terms[:i]:
                if k2 != k or r2.sort() != r.sort():
                    continue
                ok = z3.And(z3.Not(nan(r)), z3.Not(nan(r2)))
                if k == z3.Z3_OP_FPA_ADD:
                    up = z3.Or(z3.And(le(x, x2), le(y, y2)), z3.And(le(x, y2), le(y, x2)))
                    down = z3.Or(z3.And(le(x2, x), le(y2, y)), z3.And(le(y2, x), le(x2, y)))
                elif k == z3.Z3_OP_FPA_SUB:
                    up = z3.And(le(x, x2), le(y2, y))
                    down = z3.And(le(x2, x), le(y, y2))
                else:
                    pos = [z3.fpGEQ(x, z), z3.fpGEQ(x2, z), z3.Not(neg(y)), z3.Not(neg(y2))]
                    up = z3.And(le(x, x2), le(y2, y), *pos)
                    down = z3.And(le(x2, x), le(y, y2), *pos)
                cs.append(z3.Implies(z3.And(up, ok), le(r, r2)))
                cs.append(z3.Implies(z3.And(down, ok), le(r2, r)))
        s = z3.Tactic('qffp').solver() if self.st.fp == 1 else z3.Solver()
        s.set('timeout', self.opts.get('fp_timeout_ms', 60000))
        s.add(*cs)
        return s.check() == z3.unsat

    def holds_in_model(self, e):
        m = self.st.model
        if m is None:
            return None
        v = m.eval(e, model_completion=True)
        if z3.is_true(v):
            return True
        if z3.is_false(v):
            return False
        return None

    def feasible(self, e):
        """-> (bool, model or None); unknown counts as feasible (over-approximation)."""
        if self.holds_in_model(e):
            self.stats.model_hits += 1
            return True, self.st.model
        r, m = self.check(e)
        return r != 'unsat', m

    def add(self, e, var=None, val=None):
        """Add a constraint to the path. When it defines the fresh variable var, whose value may be val (a term over
        earlier variables or a function of the model), the path's model is extended by it."""
        st = self.st
        st.pc.append(e)
        m = st.model
        if m is None:
            return
        if var is not None:
            x = val(m) if callable(val) else m.eval(val, model_completion=True)
            if x is not None and (z3.is_int_value(x) or z3.is_rational_value(x)):
                m.update_value(var, x)
        if not self.holds_in_model(e):
            st.model = None

    def assume(self, e):
        """Constrain the path; end it when that is infeasible."""
        ok, m = self.feasible(e)
        if not ok:
            raise PathEnd('assume')
        self.st.pc.append(e)
        self.st.model = m

    def know(self, e, v):
        self.st.known[e.get_id()] = (v, e)

    def mkb(self, e):
        if z3.is_true(e):
            return 1
        if z3.is_false(e):
            return 0
        return SB(e)

    def br(self, c):
        """Decide a symbolic i1; forks when both ways are feasible."""
        if c.__class__ is int:
            return c
        if c.__class__ is SI:
            c = self.to_bool(c)
            if c.__class__ is int:
                return c
        if c.__class__ is Cat:
            return self.br(self.cat_si(c, 1))
        e = c.e
        k = self.st.known.get(e.get_id())
        if k is not None:
            return k[0]
        ne = z3.Not(e)
        t, mt = self.feasible(e)
        if not t:
            self.know(e, 0)
            return 0
        f, mf = self.feasible(ne)
        if not f:
            self.know(e, 1)
            return 1
        raise Fork([(e, {e.get_id(): (1, e)}, mt), (ne, {e.get_id(): (0, e)}, mf)])

    def concretize_expr(self, e, what='value', limit=None):
        """Fork over all feasible values of an Int expression."""
        k = self.st.known.get(e.get_id())
        if k is not None:
            return k[0]
        if z3.is_int_value(e):
            return e.as_long()
        v = self.choose(e)
        if v is not None:
            return v
        limit = limit or self.opts.get('max_values', 512)
        alts = []
        st = self.st
        base = st.pc
        if st.model is not None:
            v = st.model.eval(e, model_completion=True).as_long()
            alts.append((e == v, {e.get_id(): (v, e)}, st.model))
        saved = list(base)
        try:
            st.pc = saved
            if alts:
                saved.append(e != alts[0][1][e.get_id()][0])
            while True:
                r, m = self.check()
                if r == 'unsat':
                    break
                if r == 'unknown':
                    raise Unsupported('unknown while enumerating the values of a %s' % what)
                v = m.eval(e, model_completion=True).as_long()
                alts.append((e == v, {e.get_id(): (v, e)}, m))
                saved.append(e != v)
                if len(alts) > limit:
                    raise Unsupported('more than %d values of a %s' % (limit, what))
        finally:
            st.pc = base
        if not alts:
            raise PathEnd('infeasible')
        if len(alts) == 1:
            v = alts[0][1][e.get_id()][0]
            self.know(e, v)
            return v
        alts.sort(key=lambda a: -a[1][e.get_id()][0])
        raise Fork(alts)

    def choose(self, e):
        """The value of a choice between constants, possibly scaled and shifted (forks on its conditions)."""
        def leaves(e, depth):
            if z3.is_int_value(e):
                return True
            if depth and z3.is_app_of(e, z3.Z3_OP_ITE):
                return leaves(e.arg(1), depth - 1) and leaves(e.arg(2), depth - 1)
            return False

        def ok(e):
            if z3.is_app_of(e, z3.Z3_OP_ADD) or z3.is_app_of(e, z3.Z3_OP_MUL):
                rest = [x for x in e.children() if not z3.is_int_value(x)]
                return len(rest) == 1 and ok(rest[0])
            return z3.is_app_of(e, z3.Z3_OP_ITE) and leaves(e, 4)

        def val(e):
            if z3.is_int_value(e):
                return e.as_long()
            if z3.is_app_of(e, z3.Z3_OP_ITE):
                return val(e.arg(1 if self.br(SB(e.arg(0))) else 2))
            v = [val(x) for x in e.children()]
            return sum(v) if z3.is_app_of(e, z3.Z3_OP_ADD) else math.prod(v)

        return val(e) if ok(e) else None

    def conc_int(self, v, N, what='value'):
        """Concrete unsigned value of an integer operand (forks)."""
        c = v.__class__
        if c is int:
            return v
        if c is SB:
            return self.br(v)
        if c is Cat:
            v = self.cat_si(v, N)
            if v.__class__ is int:
                return v
        return self.concretize_expr(v.e, what) & ((1 << N) - 1)

    def conc_float(self, v, prec):
        if v.__class__ is float:
            return v
        if v.__class__ is FX:
            n = self.concretize_expr(v.n, 'float')
            return float(n * p2(v.s))
        raise Unsupported('concretise %s' % v.__class__.__name__)

    # ------------------------------------------------------------------ integers
    def res(self, v, N=64):
        """Replace a value by what the path knows about it."""
        c = v.__class__
        if c is SI:
            k = self.st.known.get(v.e.get_id())
            if k is not None:
                return k[0] & ((1 << N) - 1)
        elif c is SB:
            k = self.st.known.get(v.e.get_id())
            if k is not None:
                return k[0]
        elif c is FX:
            k = self.st.known.get(v.n.get_id())
            if k is not None:
                return float(k[0] * p2(v.s))
        return v

    def to_bool(self, v):
        if v.__class__ is SI:
            return self.mkb(z3.simplify(v.e % 2 != 0)) if not (v.lo >= 0 and v.hi <= 1) else self.mkb(v.e == 1)
        return v

    def as_si(self, v, N):
        """SI (or int) from any integer-typed value."""
        c = v.__class__
        if c is int or c is SI:
            return v
        if c is SB:
            return SI(z3.If(v.e, zint(1), zint(0)), 0, 1)
        if c is Cat:
            return self.cat_si(v, N)
        if c in (FX, FR, FP, FH, float):
            raise Unsupported('float used as integer')
        raise Unsupported('as_si %s' % c)

    def sig(self, v, N):
        """(expr-or-int, lo, hi) in signed representation."""
        h = 1 << (N - 1)
        if v.__class__ is int:
            x = v - (1 << N) if v >= h else v
            return x, x, x
        if v.hi < h:
            return v.e, v.lo, v.hi
        if v.lo >= h:
            return v.e - (1 << N), v.lo - (1 << N), v.hi - (1 << N)
        return z3.If(v.e >= h, v.e - (1 << N), v.e), -h, h - 1

    def uns(self, v, N):
        if v.__class__ is int:
            return v, v, v
        if v.lo >= 0:
            return v.e, v.lo, v.hi
        if v.hi < 0:
            return v.e + (1 << N), v.lo + (1 << N), v.hi + (1 << N)
        return z3.If(v.e < 0, v.e + (1 << N), v.e), 0, (1 << N) - 1

    def rep(self, v, N, prefer_signed=True):
        if v.__class__ is int:
            if prefer_signed and v >> (N - 1):
                return v - (1 << N), v - (1 << N), v - (1 << N)
            return v, v, v
        return v.e, v.lo, v.hi

    def wrap(self, e, lo, hi, N):
        if e.__class__ is int:
            return e & ((1 << N) - 1)
        if lo == hi:
            return lo & ((1 << N) - 1)
        m = 1 << N
        h = m >> 1
        if lo >= -h and hi < m:
            return SI(e, lo, hi)
        # shift whole interval when it fits after a constant offset
        k = (lo + h) // m
        if k and lo - k * m >= -h and hi - k * m < m:
            return SI(e - k * m, lo - k * m, hi - k * m)
        return SI(e - m * ((e + h) / m), -h, h - 1)

    def iop(self, op, a, b, N):
        a = self.res(a, N)
        b = self.res(b, N)
        ca = a.__class__
        cb = b.__class__
        if ca is tuple or cb is tuple:
            return tuple(self.iop2(op, x, y, N) for x, y in zip(a, b))
        if ca is int and cb is int:
            return self.iconc(op, a, b, N)
        if N == 1 or (ca is SB and (cb is SB or b in (0, 1)) or cb is SB and a in (0, 1)) and op in ('and', 'or', 'xor'):
            return self.bop(op, a, b)
        if ca is Cat or cb is Cat:
            r = self.catop(op, a, b, N)
            if r is not None:
                return r
        if op == 'shl' and ca is SI and cb is int and b in (8, 16, 24, 32, 40, 48, 56) and b < N and N % 8 == 0 \
                and a.lo >= 0 and a.hi < 256:
            return self.catop(op, a, b, N)
        a = self.as_si(a, N)
        b = self.as_si(b, N)
        if a.__class__ is int and b.__class__ is int:
            return self.iconc(op, a, b, N)
        M = (1 << N) - 1
        if op == 'add':
            x, xl, xh = self.rep(a, N)
            y, yl, yh = self.rep(b, N)
            return self.wrap(zadd(y, x) if x.__class__ is int else zadd(x, y), xl + yl, xh + yh, N)
        if op == 'sub':
            x, xl, xh = self.rep(a, N)
            y, yl, yh = self.rep(b, N)
            if x.__class__ is not int and y.__class__ is not int and x.eq(y):
                return 0
            return self.wrap(zadd(x, -y) if y.__class__ is int else x - y, xl - yh, xh - yl, N)
        if op == 'mul':
            x, xl, xh = self.rep(a, N)
            y, yl, yh = self.rep(b, N)
            ps = (xl * yl, xl * yh, xh * yl, xh * yh)
            return self.wrap(x * y, min(ps), max(ps), N)
        if op in ('shl', 'lshr') and a.__class__ is int and b.__class__ is SI:
            return self.shift_table(op, a, b, N)
        if op == 'shl':
            if b.__class__ is not int:
                b = self.conc_int(b, N, 'shift')
                return self.iop(op, a, b, N)
            x, xl, xh = self.rep(a, N)
            return self.wrap(x * (1 << b), xl << b, xh << b, N)
        if op == 'lshr':
            if b.__class__ is not int:
                b = self.conc_int(b, N, 'shift')
                return self.iop(op, a, b, N)
            x, xl, xh = self.uns(a, N)
            return self.wrap(x / (1 << b), xl >> b, xh >> b, N)
        if op == 'ashr':
            if b.__class__ is not int:
                b = self.conc_int(b, N, 'shift')
                return self.iop(op, a, b, N)
            x, xl, xh = self.sig(a, N)
            return self.wrap(x / (1 << b), xl >> b, xh >> b, N)
        if op in ('udiv', 'urem', 'sdiv', 'srem'):
            if b.__class__ is not int:
                b = self.conc_int(b, N, 'divisor')
                return self.iop(op, a, b, N)
            if b == 0:
                raise Violation('division by zero')
            if op == 'udiv':
                x, xl, xh = self.uns(a, N)
                return self.wrap(x / b, xl // b, xh // b, N)
            if op == 'urem':
                x, xl, xh = self.uns(a, N)
                if xh < b:
                    return a
                return self.wrap(x % b, 0, min(b - 1, xh), N)
            x, xl, xh = self.sig(a, N)
            d = b - (1 << N) if b >> (N - 1) else b
            ad = abs(d)
            if xl >= 0:
                q = x / ad
            elif xh <= 0:
                q = -((-x) / ad)
            else:
                q = z3.If(x >= 0, x / ad, -((-x) / ad))
            tq = lambda v: (abs(v) // ad) * (1 if v >= 0 else -1)
            if op == 'sdiv':
                ql, qh = tq(xl), tq(xh)
                if d < 0:
                    return self.wrap(-q, -qh, -ql, N)
                return self.wrap(q, ql, qh, N)
            lo = -min(ad - 1, -xl) if xl < 0 else 0
            hi = min(ad - 1, xh) if xh > 0 else 0
            return self.wrap(x - q * ad, lo, hi, N)
        if op == 'and':
            if a.__class__ is int:
                a, b = b, a
            if b.__class__ is int:
                if b == 0:
                    return 0
                if b == M:
                    return a
                if b & (b + 1) == 0:        # low mask
                    x, xl, xh = self.rep(a, N)
                    if xl >= 0 and xh <= b:
                        return a
                    return SI(x % (b + 1), 0, b)
                nb = ~b & M
                if nb & (nb + 1) == 0:      # high mask
                    x, xl, xh = self.rep(a, N)
                    k = nb + 1
                    return self.wrap(x - x % k, xl // k * k, xh // k * k, N)
                if b & (b - 1) == 0:        # one bit
                    x, xl, xh = self.uns(a, N)
                    if xh < b:
                        return 0
                    return SI(((x / b) % 2) * b, 0, b)
        if op == 'xor':
            if a.__class__ is int:
                a, b = b, a
            if b.__class__ is int:
                x, xl, xh = self.sig(a, N)
                if b == M:
                    return self.wrap(-1 - x, -1 - xh, -1 - xl, N)
                if b == 0:
                    return a
                if b == 1 << (N - 1):
                    return self.wrap(x + b, xl + b, xh + b, N)
                x, xl, xh = self.uns(a, N)
                if b & (b + 1) == 0 and xl >= 0 and xh <= b:
                    return self.wrap(b - x, b - xh, b - xl, N)
        if op == 'or':
            if a.__class__ is int:
                a, b = b, a
            if b == 0:
                return a
            if b.__class__ is int:
                x, xl, xh = self.uns(a, N)
                tz = (b & -b)
                if xl >= 0 and xh < tz:
                    return self.wrap(x + b, xl + b, xh + b, N)
        if op in ('and', 'or', 'xor'):
            # a sign mask (0 or all ones) selects
            for x, y in ((a, b), (b, a)):
                if x.__class__ is int:
                    continue
                e, lo, hi = self.sig(x, N)
                if lo >= -1 and hi <= 0:
                    on, off = {'and': (y, 0), 'or': (M, y), 'xor': (self.iop2('xor', y, M, N), y)}[op]
                    return self.select(SB(e < 0), on, off, 'i%d' % N)
            if a.__class__ is int:
                a, b = b, a
            if b.__class__ is int and bin(b).count('01') + 1 <= 8:
                # a constant mask: its runs of ones
                x, xl, xh = self.uns(a, N)
                t, i, hi = zint(0), 0, 0
                while b >> i:
                    if not b >> i & 1:
                        i += 1
                        continue
                    j = i
                    while b >> j & 1:
                        j += 1
                    t = t + (x / zint(1 << i)) % zint(1 << (j - i)) * (1 << i)
                    i = j
                r = self.wrap(t, 0, b, N)
                if op == 'and':
                    return r
                s = self.iop2('add', a, b, N)
                s = self.iop2('sub', s, r, N)
                return s if op == 'or' else self.iop2('sub', s, r, N)
            if b.__class__ is not int:
                x, xl, xh = self.sig(a, N)
                y, yl, yh = self.sig(b, N)
                if xh - xl > 512 and yh - yl > 512:
                    # two wide operands: the result's sign, zero and range (other bits are over-approximated)
                    key = ('bit', op, x.get_id(), y.get_id(), N)
                    hit = self.st.fcache.get(key)
                    if hit is not None:
                        return hit[0]
                    f = {'and': lambda p, q: p & q, 'or': lambda p, q: p | q, 'xor': lambda p, q: p ^ q}[op]
                    sg = {'and': z3.And, 'or': z3.Or, 'xor': z3.Xor}[op](x < 0, y < 0)
                    h = max(-xl, -yl, xh, yh, 0)
                    lim = 1 << h.bit_length()
                    r = self.fresh('bits')
                    con = [(r < 0) == sg, r >= -lim, r < lim]
                    if op == 'and':
                        con += [z3.Implies(x >= 0, r <= x), z3.Implies(y >= 0, r <= y),
                                z3.Implies(z3.Or(x == 0, y == 0), r == 0)]
                    elif op == 'or':
                        con += [(r == 0) == z3.And(x == 0, y == 0), z3.Implies(z3.And(x >= 0, y >= 0), z3.And(r >= x, r >= y))]
                        for k in (2 ** i for i in range(1, 13)):
                            con.append(z3.And(r >= 0, r < k) == z3.And(x >= 0, y >= 0, x < k, y < k))
                    else:
                        con += [(r == 0) == (x == y)]
                    def val(m):
                        p, q = m.eval(x, model_completion=True), m.eval(y, model_completion=True)
                        if z3.is_int_value(p) and z3.is_int_value(q):
                            return zint(f(p.as_long(), q.as_long()))
                        return None
                    self.add(z3.And(*con), r, val)
                    v = SI(r, -lim, lim - 1)
                    self.st.fcache[key] = (v, x, y)
                    return v
        # no linear form: case split on the values
        if a.__class__ is not int:
            return self.iop(op, self.conc_int(a, N, 'operand of ' + op), b, N)
        return self.iop(op, a, self.conc_int(b, N, 'operand of ' + op), N)

    def iop2(self, op, a, b, N):
        if a.__class__ is int and b.__class__ is int:
            return self.iconc(op, a, b, N)
        return self.iop(op, a, b, N)

    def iconc(self, op, a, b, N):
        M = (1 << N) - 1
        if op == 'add':
            return (a + b) & M
        if op == 'sub':
            return (a - b) & M
        if op == 'mul':
            return (a * b) & M
        if op == 'and':
            return a & b
        if op == 'or':
            return a | b
        if op == 'xor':
            return a ^ b
        if op == 'shl':
            return (a << b) & M if b < N else 0
        if op == 'lshr':
            return a >> b if b < N else 0
        h = 1 << (N - 1)
        if op == 'ashr':
            sa = a - (1 << N) if a >= h else a
            return (sa >> min(b, N - 1)) & M
        if b == 0:
            raise Violation('division by zero')
        if op == 'udiv':
            return a // b
        if op == 'urem':
            return a % b
        sa = a - (1 << N) if a >= h else a
        sb = b - (1 << N) if b >= h else b
        q = abs(sa) // abs(sb)
        if (sa < 0) != (sb < 0):
            q = -q
        if op == 'sdiv':
            return q & M
        if op == 'srem':
            return (sa - q * sb) & M
        raise Unsupported(op)

    def bop(self, op, a, b):
        def e(v):
            if v.__class__ is int:
                return z3.BoolVal(bool(v & 1))
            if v.__class__ is SB:
                return v.e
            if v.__class__ is Cat:
                v = self.cat_si(v, 1)
            return e(self.to_bool(v))
        if op in ('and', 'mul'):
            if a == 0 or b == 0:
                return 0
            if a == 1:
                return b
            if b == 1:
                return a
            return SB(z3.And(e(a), e(b)))
        if op == 'or':
            if a == 1 or b == 1:
                return 1
            if a == 0:
                return b
            if b == 0:
                return a
            return SB(z3.Or(e(a), e(b)))
        if op in ('xor', 'add', 'sub'):
            if a == 0:
                return b
            if b == 0:
                return a
            if a == 1:
                return SB(z3.Not(e(b)))
            if b == 1:
                return SB(z3.Not(e(a)))
            return SB(z3.Xor(e(a), e(b)))
        raise Unsupported('i1 ' + op)

    def ovf(self, op, a, b, N):
        """{value, overflow flag} of op in sadd ssub smul uadd usub umul."""
        a = self.res(a, N)
        b = self.res(b, N)
        s = op[0] == 's'
        o = op[1:]
        h = 1 << (N - 1)
        if a.__class__ is not int or b.__class__ is not int:
            a = self.as_si(a, N)
            b = self.as_si(b, N)
        f = self.sig if s else self.uns
        x, xl, xh = f(a, N)
        y, yl, yh = f(b, N)
        if o == 'add':
            e, lo, hi = x + y, xl + yl, xh + yh
        elif o == 'sub':
            e, lo, hi = x - y, xl - yh, xh - yl
        else:
            ps = (xl * yl, xl * yh, xh * yl, xh * yh)
            e, lo, hi = x * y, min(ps), max(ps)
        mn, mx = (-h, h - 1) if s else (0, (1 << N) - 1)
        if e.__class__ is int:
            return (e & ((1 << N) - 1), 0 if mn <= e <= mx else 1)
        if lo >= mn and hi <= mx:
            return (self.wrap(e, lo, hi, N), 0)
        if hi < mn or lo > mx:
            return (self.wrap(e, lo, hi, N), 1)
        # decide the flag now: overflow is nearly always infeasible or a panic
        c = SB(z3.Or(e < mn, e > mx))
        k = self.br(c)
        if k:
            return (self.wrap(e, lo, hi, N), 1)
        return (SI(e, max(lo, mn), min(hi, mx)), 0)

    def icmp(self, pred, a, b, N):
        a = self.res(a, N)
        b = self.res(b, N)
        ca = a.__class__
        cb = b.__class__
        if ca is tuple:
            return tuple(self.icmp(pred, x, y, N) for x, y in zip(a, b))
        if ca is int and cb is int:
            return self.icmpc(pred, a, b, N)
        if N == 1 and pred in ('eq', 'ne'):
            r = self.bop('xor', a, b)
            return self.bop('xor', r, 1) if pred == 'eq' else r
        if (ca is Cat or cb is Cat) and pred in ('eq', 'ne'):
            r = self.cat_eq(a, b, N)
            if r is not None:
                return r if pred == 'eq' else self.bop('xor', r, 1)
        a = self.as_si(a, N)
        b = self.as_si(b, N)
        if a.__class__ is int and b.__class__ is int:
            return self.icmpc(pred, a, b, N)
        h = 1 << (N - 1)
        if pred in ('eq', 'ne'):
            def sok(v):
                return v.__class__ is int or v.hi < h
            f = self.sig if sok(a) and sok(b) else self.uns
            x, xl, xh = f(a, N)
            y, yl, yh = f(b, N)
            if xh < yl or yh < xl:
                return 0 if pred == 'eq' else 1
            return self.mkb(x == y if pred == 'eq' else x != y)
        f = self.sig if pred[0] == 's' else self.uns
        x, xl, xh = f(a, N)
        y, yl, yh = f(b, N)
        p = pred[1:]
        if p == 'gt':
            x, xl, xh, y, yl, yh = y, yl, yh, x, xl, xh
            p = 'lt'
        elif p == 'ge':
            x, xl, xh, y, yl, yh = y, yl, yh, x, xl, xh
            p = 'le'
        if p == 'lt':
            if xh < yl:
                return 1
            if xl >= yh:
                return 0
            return self.mkb(x < y)
        if xh <= yl:
            return 1
        if xl > yh:
            return 0
        return self.mkb(x <= y)

    def icmpc(self, pred, a, b, N):
        if pred == 'eq':
            return (a == b) + 0
        if pred == 'ne':
            return (a != b) + 0
        if pred[0] == 's':
            h = 1 << (N - 1)
            a ^= h
            b ^= h
        p = pred[1:]
        if p == 'lt':
            return (a < b) + 0
        if p == 'le':
            return (a <= b) + 0
        if p == 'gt':
            return (a > b) + 0
        return (a >= b) + 0

    def minmax(self, op, a, b, N):
        a = self.res(a, N)
        b = self.res(b, N)
        pred = {'umax': 'ugt', 'umin': 'ult', 'smax': 'sgt', 'smin': 'slt'}[op]
        c = self.icmp(pred, a, b, N)
        if c.__class__ is int:
            return a if c else b
        return self.select(c, a, b, N)

    def nested(self, e, limit=8):
        """Whether e is a choice within a choice ... to that depth."""
        for _ in range(3 * limit):
            if z3.is_app_of(e, z3.Z3_OP_ITE):
                limit -= 1
                if not limit:
                    return True
                x = e.arg(1)
                e = e.arg(2) if z3.is_int_value(x) or z3.is_const(x) else x
            elif z3.is_app_of(e, z3.Z3_OP_ADD):
                r = [x for x in e.children() if not z3.is_int_value(x)]
                if len(r) != 1:
                    return False
                e = r[0]
            else:
                return False
        return False

    def select(self, c, a, b, N):
        """N: bit width of an integer type, or 'f32' / 'f64' / None."""
        c = self.res(c, 1)
        if c.__class__ is int:
            return a if c else b
        if c.__class__ is tuple:
            return tuple(self.select(x, y, z, N) for x, y, z in zip(c, a, b))
        if c.__class__ is not SB:
            c = self.to_bool(self.as_si(c, 1))
            if c.__class__ is int:
                return a if c else b
        k = self.st.known.get(c.e.get_id())
        if k is not None:
            return a if k[0] else b
        if N.__class__ is int:
            if a.__class__ is int and b.__class__ is int and a == b:
                return a
            if N == 1:
                if a.__class__ is int and b.__class__ is int:
                    return c if a else SB(z3.Not(c.e))
                ok = (int, SB)
                if a.__class__ in ok and b.__class__ in ok:
                    ea = z3.BoolVal(bool(a)) if a.__class__ is int else a.e
                    eb = z3.BoolVal(bool(b)) if b.__class__ is int else b.e
                    if a.__class__ is int:
                        return SB(z3.Or(c.e, eb) if a else z3.And(z3.Not(c.e), eb))
                    if b.__class__ is int:
                        return SB(z3.Or(z3.Not(c.e), ea) if b else z3.And(c.e, ea))
                    return SB(z3.If(c.e, ea, eb))
            elif a.__class__ in (int, SI) and b.__class__ in (int, SI):
                x, xl, xh = self.rep(a, N)
                y, yl, yh = self.rep(b, N)
                if x.__class__ is int:
                    x = zint(x)
                if y.__class__ is int:
                    y = zint(y)
                if self.nested(x) or self.nested(y):
                    # a value chosen again and again (a counter of a loop): decide instead of piling up choices
                    return a if self.br(c) else b
                return SI(z3.If(c.e, x, y), min(xl, yl), max(xh, yh))
        elif N in ('f32', 'f64'):
            if a.__class__ is float and b.__class__ is float and a == b and \
                    math.copysign(1, a) == math.copysign(1, b):
                return a
            if a.__class__ is FP or b.__class__ is FP:
                if a.__class__ in (FP, float) and b.__class__ in (FP, float):
                    p = int(N[1:])
                    return FP(z3.If(c.e, self.fpe(a, p), self.fpe(b, p)))
            if a.__class__ is FH or b.__class__ is FH:
                x, nx = self.fh_of(a)
                y, ny = self.fh_of(b)
                n = None if nx is None and ny is None else z3.If(c.e, FALSE if nx is None else nx, FALSE if ny is None else ny)
                return FH(z3.If(c.e, x, y), n)
            x = self.as_fx(a)
            y = self.as_fx(b)
            if x is not None and y is not None:
                s = max(x[1], y[1])
                xs, ys = 1 << (s - x[1]), 1 << (s - y[1])
                xn = zint(x[0] * xs) if x[0].__class__ is int else (x[0] * xs if xs != 1 else x[0])
                yn = zint(y[0] * ys) if y[0].__class__ is int else (y[0] * ys if ys != 1 else y[0])
                return FX(z3.If(c.e, xn, yn), s, min(x[2] * xs, y[2] * ys), max(x[3] * xs, y[3] * ys))
        # anything else: fork
        return a if self.br(c) else b

    def cast(self, op, v, n1, n2):
        """trunc / zext / sext between integer widths."""
        v = self.res(v, n1)
        if v.__class__ is tuple:
            return tuple(self.cast(op, x, n1, n2) for x in v)
        if v.__class__ is int:
            if op == 'trunc':
                return v & ((1 << n2) - 1)
            if op == 'zext':
                return v
            return (v - (1 << n1) if v >> (n1 - 1) else v) & ((1 << n2) - 1)
        if v.__class__ is SB:
            if n2 == 1:
                return v
            if op == 'zext':
                return SI(z3.If(v.e, zint(1), zint(0)), 0, 1)
            return SI(z3.If(v.e, zint(-1), zint(0)), -1, 0)
        if v.__class__ is Cat:
            if op == 'trunc' and n2 % 8 == 0:
                return self.cat_norm(v.b[:n2 // 8])
            if op == 'zext' and n1 % 8 == 0:
                return self.cat_norm(v.b + (0,) * ((n2 - n1) // 8))
            if op == 'trunc' and n2 < 8 * (len(v.b) - 1):
                k = -(-n2 // 8)
                return self.cast(op, self.res(self.cat_norm(v.b[:k]), 8 * k), 8 * k, n2)
            v = self.cat_si(v, n1)
            if v.__class__ is int:
                return self.cast(op, v, n1, n2)
        if op == 'trunc':
            if n2 == 1:
                return self.to_bool(v)
            m = 1 << n2
            h = m >> 1
            if v.lo >= -h and v.hi < m:
                return v
            if v.lo >= 0:
                return SI(v.e % m, 0, m - 1)
            return self.wrap(v.e, v.lo, v.hi, n2)
        if op == 'zext':
            x, lo, hi = self.uns(v, n1)
            return SI(x, lo, hi)
        x, lo, hi = self.sig(v, n1)
        return SI(x, lo, hi)

    # ------------------------------------------------------------------ byte composites
    def bytes_of(self, v, n):
        """Byte list of an n-byte value."""
        c = v.__class__
        if c is int:
            return tuple(v.to_bytes(n, 'little'))
        if c is Cat:
            assert len(v.b) == n
            return v.b
        if c is SB:
            return ((v, 0, 1),) + (0,) * (n - 1)
        if c is SI and v.lo >= 0 and v.hi < 256 and n > 1:
            return ((v, 0, 1),) + (0,) * (n - 1)
        return tuple((v, i, n) for i in range(n))

    def cat_norm(self, b):
        """Value of an integer-typed byte sequence."""
        b = tuple(b)
        n = len(b)
        f = b[0]
        if f.__class__ is int:
            for x in b:
                if x.__class__ is not int:
                    return Cat(b)
            return int.from_bytes(bytes(b), 'little')
        v, i, m = f
        if i == 0 and m <= n and v.__class__ in (SI, SB):
            for k in range(1, m):
                x = b[k]
                if x.__class__ is int or x[0] is not v or x[1] != k:
                    return Cat(b)
            for k in range(m, n):
                if b[k] != 0:
                    return Cat(b)
            if m == n:
                return v
            return self.cast('zext', v, m * 8, n * 8)
        return Cat(b)

    def cat_float(self, v):
        """The float whose bytes v is, if it is exactly one; else None."""
        if v.__class__ is not Cat:
            return None
        f = v.b[0]
        if f.__class__ is int:
            return None
        val, i, m = f
        if i != 0 or m != len(v.b) or val.__class__ not in (FX, FR, FP, FH, float):
            return None
        for k in range(1, m):
            x = v.b[k]
            if x.__class__ is int or x[0] is not val or x[1] != k:
                return None
        return val

    def byte_si(self, x):
        """int or (expr, lo, hi) of one byte."""
        if x.__class__ is int:
            return x
        v, i, m = x
        c = v.__class__
        if c is SB:
            return SI(z3.If(v.e, zint(1), zint(0)), 0, 1) if i == 0 else 0
        if c is int:
            return (v >> (8 * i)) & 255
        if c is SI:
            r = self.res(v, m * 8)
            if r.__class__ is int:
                return (r >> (8 * i)) & 255
            e, lo, hi = self.uns(v, m * 8)
            if i == 0 and hi < 256:
                return SI(e, lo, hi)
            if i:
                e = e / (1 << (8 * i))
            return SI(e % 256, 0, 255)
        if c is FP:
            if v.bv is None:
                raise Unsupported('bits of a computed IEEE float')
            return SI(z3.BV2Int(z3.Extract(8 * i + 7, 8 * i, v.bv)), 0, 255)
        if c is FX:
            f = self.conc_float(v, m * 8)
            return (float_bits(f, m * 8) >> (8 * i)) & 255
        raise Unsupported('bits of a %s' % c.__name__)

    def cat_si(self, v, N):
        if v.__class__ is not Cat:
            return v
        f = self.cat_float(v)
        if f is not None:
            if f.__class__ is FP and f.bv is not None:
                return SI(z3.BV2Int(f.bv), 0, (1 << N) - 1)
            if f.__class__ is FX:
                return float_bits(self.conc_float(f, N), N)
        e = None
        lo = hi = 0
        k = 0
        b = v.b
        i = 0
        while i < len(b):
            x = self.byte_si(b[i])
            if x.__class__ is int:
                lo += x << (8 * i)
                hi += x << (8 * i)
                k += x << (8 * i)
            else:
                t = x.e * (1 << (8 * i)) if i else x.e
                e = t if e is None else e + t
                lo += x.lo << (8 * i)
                hi += x.hi << (8 * i)
            i += 1
        if e is None:
            return k
        return SI(e + k if k else e, lo, hi)

    def catop(self, op, a, b, N):
        """Structural shifts and disjoint or/and of byte composites; None when not structural."""
        if N % 8:
            return None
        n = N // 8
        if op in ('shl', 'lshr') and b.__class__ is int and b % 8 == 0:
            k = b // 8
            x = self.bytes_of(a, n)
            if op == 'shl':
                return self.cat_norm((0,) * k + x[:n - k])
            return self.cat_norm(x[k:] + (0,) * k)
        if op in ('or', 'add', 'xor') and a.__class__ in (int, SI, Cat) and b.__class__ in (int, SI, Cat):
            x = self.bytes_of(a, n)
            y = self.bytes_of(b, n)
            out = []
            for p, q in zip(x, y):
                if p == 0 and p.__class__ is int:
                    out.append(q)
                elif q == 0 and q.__class__ is int:
                    out.append(p)
                else:
                    break
            else:
                return self.cat_norm(out)
        if op == 'and':
            if a.__class__ is int:
                a, b = b, a
            if b.__class__ is int:
                x = self.bytes_of(a, n)
                y = b.to_bytes(n, 'little')
                out = []
                for p, q in zip(x, y):
                    if q == 0:
                        out.append(0)
                    elif q == 255:
                        out.append(p)
                    elif p.__class__ is int:
                        out.append(p & q)
                    else:
                        break
                else:
                    return self.cat_norm(out)
        if op in ('and', 'or', 'xor', 'add', 'sub'):
            return self.catbytes(op, self.bytes_of(a, n), self.bytes_of(b, n))
        return None

    def catbytes(self, op, xs, ys):
        """Byte by byte; None where a carry is not determined or a byte has no integer value."""
        out = []
        carry = 0
        for p, q in zip(xs, ys):
            for r in (p, q):
                if r.__class__ is not int and r[0].__class__ not in (SI, SB, int):
                    return None
            x = self.byte_si(p)
            y = self.byte_si(q)
            if op in ('add', 'sub'):
                if x.__class__ is int and y.__class__ is int:
                    t = x + y + carry if op == 'add' else x - y - carry
                    out.append(t & 255)
                    carry = int(t < 0 or t > 255)
                    continue
                xe, xl, xh = (x, x, x) if x.__class__ is int else (x.e, x.lo, x.hi)
                ye, yl, yh = (y, y, y) if y.__class__ is int else (y.e, y.lo, y.hi)
                if op == 'add':
                    e, lo, hi = xe + ye + carry, xl + yl + carry, xh + yh + carry
                else:
                    e, lo, hi = xe - ye - carry, xl - yh - carry, xh - yl - carry
                if lo >= 0 and hi <= 255:
                    carry = 0
                elif lo > 255:
                    e, lo, hi, carry = e - 256, lo - 256, hi - 256, 1
                elif hi < 0:
                    e, lo, hi, carry = e + 256, lo + 256, hi + 256, 1
                else:
                    return None
                out.append((SI(e, lo, hi), 0, 1))
                continue
            if x.__class__ is int:
                x, y = y, x
                p, q = q, p
            if y.__class__ is int:
                if x.__class__ is int:
                    out.append({'and': x & y, 'or': x | y, 'xor': x ^ y}[op])
                    continue
                if y == 0:
                    out.append(0 if op == 'and' else p)
                    continue
                if op == 'and' and y == 255:
                    out.append(p)
                    continue
                r = self.iop(op, x, y, 8)
            elif op == 'or' and p[0] is q[0] and p[1:] == q[1:]:
                out.append(p)
                continue
            elif op == 'or':
                r = self.byte_or(x, y)
            else:
                return None
            out.append(r if r.__class__ is int else (r, 0, 1))
        return self.cat_norm(out)

    def shift_table(self, op, a, b, N):
        """A constant shifted by a symbolic amount (bit-set membership): one alternative per amount."""
        e, lo, hi = self.uns(b, N)
        key = ('sht', op, a, e.get_id(), N)
        hit = self.st.fcache.get(key)
        if hit is not None:
            return hit[0]
        M = (1 << N) - 1
        t = None
        vals = []
        for k in range(max(lo, 0), min(hi, N - 1) + 1):
            v = a >> k if op == 'lshr' else a << k & M
            vals.append(v)
            t = zint(v) if t is None else z3.If(e == k, zint(v), t)
        if t is None:
            return 0
        r = vals[0] if len(set(vals)) == 1 else SI(t, min(vals), max(vals))
        self.st.fcache[key] = (r, e)
        return r

    def byte_or(self, x, y):
        """Union of the bits of two bytes: each bit from those of the operands."""
        key = ('byteor', x.e.get_id(), y.e.get_id())
        hit = self.st.fcache.get(key)
        if hit is not None:
            return hit[0]
        t, hi = zint(0), 0
        for k in range(max(x.hi, y.hi).bit_length()):
            m = 1 << k
            bits = []
            for v in (x, y):
                if v.hi >= m:
                    bits.append((v.e / zint(m)) % 2 == 1)
            t = t + z3.If(z3.Or(*bits), zint(m), zint(0))
            hi += m
        r = SI(t, max(x.lo, y.lo), hi)
        self.st.fcache[key] = (r, x.e, y.e)
        return r

    def cat_eq(self, a, b, N):
        n = N // 8
        if N % 8 or a.__class__ not in (int, SI, Cat) or b.__class__ not in (int, SI, Cat):
            return None
        if a.__class__ is SI or b.__class__ is SI:
            return None
        x = self.bytes_of(a, n)
        y = self.bytes_of(b, n)
        es = []
        i = 0
        while i < n:
            p, q = x[i], y[i]
            if p.__class__ is int and q.__class__ is int:
                if p != q:
                    return 0
            elif p.__class__ is not int and q.__class__ is not int and p[0] is q[0] and p[1] == q[1]:
                pass
            else:
                u = self.byte_si(p)
                w = self.byte_si(q)
                r = self.icmp('eq', u, w, 8)
                if r.__class__ is int:
                    if not r:
                        return 0
                else:
                    es.append(r.e)
            i += 1
        if not es:
            return 1
        return SB(z3.And(*es) if len(es) > 1 else es[0])

    # ------------------------------------------------------------------ floats
    def as_fx(self, v):
        """(n, s, lo, hi) of an exactly represented value, else None."""
        if v.__class__ is FX:
            return v.n, v.s, v.lo, v.hi
        if v.__class__ is float:
            if v != v or v in (INF, -INF):
                return None
            if v == 0 and math.copysign(1, v) < 0:
                return 0, 0, 0, 0
            a, d = v.as_integer_ratio()
            s = d.bit_length() - 1
            if s > 200 or abs(a) > 1 << 200:
                return None
            return a, s, a, a
        return None

    def as_real(self, v):
        """(expr or Fraction, lo, hi) over the reals."""
        c = v.__class__
        if c is float:
            f = Fraction(v)
            return f, f, f
        if c is FX:
            q = p2(v.s)
            e = z3.ToReal(v.n)
            if v.s:
                e = e * fr2s(q)
            return e, v.lo * q, v.hi * q
        if c is FR:
            return v.v, v.lo, v.hi
        raise Unsupported('as_real %s' % c)

    def fkey(self, v):
        c = v.__class__
        if c is float:
            return v
        if c is FX:
            return ('x', v.n.get_id(), v.s)
        if c is FR:
            return ('r', v.v.get_id())
        if c is FH:
            return ('h', v.v.get_id())
        return ('p', v.e.get_id())

    def havoc(self, key, keep, sign=0):
        """Any float, the same for the same operation on the same operands."""
        hit = self.st.fcache.get(key)
        if hit is not None:
            return hit[0]
        v = self.fresh('h', 'r')
        self.uid += 1
        r = FH(v, z3.Bool('n!%d' % self.uid))
        self.add(z3.And(v <= FH_INF, v >= (0 if sign else -FH_INF)), v, z3.Q(0, 1))
        self.st.fcache[key] = (r, keep)
        return r

    def fh_of(self, v):
        """(z3 Real, NaN condition or None) of any float value."""
        c = v.__class__
        if c is FH:
            return v.v, v.nan
        if c is float:
            if v != v:
                return z3.Q(0, 1), TRUE
            if v in (INF, -INF):
                return FH_INF if v > 0 else -FH_INF, None
        r = self.as_real(v)[0]
        return (fr2s(r) if r.__class__ is Fraction else r), None

    def fpe(self, v, prec):
        if v.__class__ is FP:
            return v.e
        if v.__class__ is float:
            s = FS[prec]
            if v != v:
                return z3.fpNaN(s)
            if v == INF:
                return z3.fpPlusInfinity(s)
            if v == -INF:
                return z3.fpMinusInfinity(s)
            if v == 0:
                return z3.fpMinusZero(s) if math.copysign(1, v) < 0 else z3.fpPlusZero(s)
            return z3.FPVal(v, s)
        if v.__class__ is FX:
            k = self.conc_float(v, prec)
            return self.fpe(k, prec)
        raise Unsupported('IEEE term from %s' % v.__class__.__name__)

    def zlin(self, e):
        """Linear form of an Int term: ({id: (term, coefficient)}, constant)."""
        if z3.is_int_value(e):
            return {}, Fraction(e.as_long())
        k = e.decl().kind()
        if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB):
            t, c = {}, Fraction(0)
            for i, x in enumerate(e.children()):
                f = -1 if k == z3.Z3_OP_SUB and i else 1
                u, d = self.zlin(x)
                t, c, _ = self.aff_add((t, c, 0), (u, d, 0), f)
            return t, c
        if k == z3.Z3_OP_UMINUS:
            u, d = self.zlin(e.arg(0))
            return {i: (x, -q) for i, (x, q) in u.items()}, -d
        if k == z3.Z3_OP_MUL and e.num_args() == 2:
            for a, b in ((0, 1), (1, 0)):
                if z3.is_int_value(e.arg(a)):
                    f = e.arg(a).as_long()
                    u, d = self.zlin(e.arg(b))
                    return ({i: (x, q * f) for i, (x, q) in u.items()} if f else {}), d * f
        return {e.get_id(): (e, Fraction(1))}, Fraction(0)

    def aff_of(self, v):
        c = v.__class__
        if c is float:
            return {}, Fraction(v), Fraction(0)
        if c is FX:
            t, d = self.zlin(v.n)
            q = p2(v.s)
            return {i: (x, f * q) for i, (x, f) in t.items()}, d * q, Fraction(0)
        if v.aff is not None:
            return v.aff
        return {v.v.get_id(): (v.v, Fraction(1))}, Fraction(0), Fraction(0)

    def aff_add(self, a, b, f):
        """a + f * b"""
        t = dict(a[0])
        for i, (x, q) in b[0].items():
            n = q * f + (t[i][1] if i in t else 0)
            if n:
                t[i] = (x, n)
            else:
                t.pop(i, None)
        return t, a[1] + f * b[1], a[2] + abs(f) * b[2]

    def aff_scale(self, a, f):
        return self.aff_add(({}, Fraction(0), Fraction(0)), a, f)

    def rounded(self, key, r, lo, hi, prec, keep=None, aff=None):
        """Fresh real within half an ulp of r, which lies in [lo, hi]."""
        st = self.st
        hit = st.fcache.get(key)
        if hit is not None:
            return hit[0]
        M = max(abs(lo), abs(hi))
        if M > Fraction(2) ** 120 and prec == 32:
            raise Unsupported('float range')
        if lo == hi:
            f = float(lo) if prec == 64 else f32(float(lo))
            return f
        # half an ulp of the largest magnitude bounds the rounding error of every smaller one
        p = 24 if prec == 32 else 53
        ex = M.numerator.bit_length() - M.denominator.bit_length() + 1 if M else 0   # M < 2^ex
        E = Fraction(2) ** max(ex - p - 1, -150 if prec == 32 else -1075)
        v = self.fresh('f', 'r')
        d = v - r
        cons = [d <= fr2s(E), d >= fr2s(-E)]
        nlo, nhi = lo - E, hi + E
        if lo >= 0:
            nlo = max(nlo, Fraction(0))
        if hi <= 0:
            nhi = min(nhi, Fraction(0))
        if lo >= 0:
            u = Fraction(1, 1 << p)
            cons.append(v >= 0)
            if self.opts.get('rel'):
                eta = Fraction(2) ** (-150 if prec == 32 else -1075)
                cons += [d <= r * fr2s(u) + fr2s(eta), d >= -r * fr2s(u) - fr2s(eta)]
        elif hi <= 0:
            u = Fraction(1, 1 << p)
            cons.append(v <= 0)
            if self.opts.get('rel'):
                eta = Fraction(2) ** (-150 if prec == 32 else -1075)
                cons += [d <= -r * fr2s(u) + fr2s(eta), d >= r * fr2s(u) - fr2s(eta)]
        elif self.opts.get('rel'):
            u = Fraction(1, 1 << p)
            eta = Fraction(2) ** (-150 if prec == 32 else -1075)
            ar = z3.If(r >= 0, r, -r)
            cons += [d <= ar * fr2s(u) + fr2s(eta), d >= -ar * fr2s(u) - fr2s(eta)]
            cons += [z3.Implies(r >= 0, v >= 0), z3.Implies(r <= 0, v <= 0)]
        if self.opts.get('mono'):
            # rounding is a monotone function
            for k2, (v2, r2) in st.rnds:
                if k2 == prec:
                    cons += [z3.Implies(r <= r2, v <= v2), z3.Implies(r2 <= r, v2 <= v)]
            st.rnds = st.rnds + ((prec, (v, r)),)
        con = z3.And(*cons)
        self.add(con, v, r)
        if key[0] == 'fmul' and aff is None:
            st.fcache['nl', v.get_id()] = (con, v)
        if aff is not None:
            aff = (aff[0], aff[1], aff[2] + E) if len(aff[0]) <= 8 else None
        res = FR(v, nlo, nhi, aff)
        st.fcache[key] = (res, r, keep)
        return res

    def fop(self, op, a, b, prec):
        a = self.res(a)
        b = self.res(b)
        ca, cb = a.__class__, b.__class__
        if ca is tuple:
            return tuple(self.fop(op, x, y, prec) for x, y in zip(a, b))
        if ca is float and cb is float:
            return self.fconc(op, a, b, prec)
        if ca is FP or cb is FP:
            x = self.fpe(a, prec)
            y = self.fpe(b, prec)
            st = self.st
            st.fp = st.fp or 1
            if op == 'fadd':
                return FP(z3.fpAdd(RNE, x, y))
            if op == 'fsub':
                return FP(z3.fpSub(RNE, x, y))
            if op == 'fmul':
                return FP(z3.fpMul(RNE, x, y))
            if op == 'fdiv':
                return FP(z3.fpDiv(RNE, x, y))
            raise Unsupported('FP ' + op)
        if ca is FH or cb is FH or self.opts.get('havoc') and (
                op == 'fmul' and ca is not float and cb is not float and self.opts['havoc'] < 2 or op == 'fdiv' and cb is not float):
            ka, kb = self.fkey(a), self.fkey(b)
            return self.havoc((op, ka, kb, prec, 'h'), (a, b))
        # inf / nan with a finite symbolic value
        for c, o, first in ((a, b, True), (b, a, False)):
            if c.__class__ is float and (c != c or c in (INF, -INF)):
                if c != c:
                    return c
                if op == 'fadd':
                    return c
                if op == 'fsub':
                    return c if first else -c
                if op == 'fdiv' and not first:
                    return 0.0
                sg = self.fsign(o)
                if op == 'fmul':
                    return float('nan') if sg == 0 else c * sg
                return c if sg >= 0 else -c      # fdiv, inf / o
        lim = 24 if prec == 32 else 53
        x, y = self.as_fx(a), self.as_fx(b)
        if op in ('fadd', 'fsub'):
            if cb is float and b == 0:
                return a
            if ca is float and a == 0 and op == 'fadd':
                return b
            if op == 'fsub' and ca is cb and self.fkey(a) == self.fkey(b):
                return 0.0
            if x is not None and y is not None:
                s = max(x[1], y[1])
                xs, ys = 1 << (s - x[1]), 1 << (s - y[1])
                xn = x[0] * xs if xs != 1 else x[0]
                yn = y[0] * ys if ys != 1 else y[0]
                if op == 'fadd':
                    n, lo, hi = xn + yn, x[2] * xs + y[2] * ys, x[3] * xs + y[3] * ys
                else:
                    n, lo, hi = xn - yn, x[2] * xs - y[3] * ys, x[3] * xs - y[2] * ys
                if max(-lo, hi) <= 1 << lim:
                    t, c, _ = self.aff_add(self.aff_of(a), self.aff_of(b), 1 if op == 'fadd' else -1)
                    if not t:
                        return float(c)
                    return self.mkfx(n, s, lo, hi)
            r1, l1, h1 = self.as_real(a)
            r2, l2, h2 = self.as_real(b)
            if r1.__class__ is Fraction:
                r1 = fr2s(r1)
            if r2.__class__ is Fraction:
                r2 = fr2s(r2)
            ka, kb = self.fkey(a), self.fkey(b)
            if op == 'fadd':
                if str(kb) < str(ka):
                    ka, kb = kb, ka
                return self.rounded((op, ka, kb, prec), r1 + r2, l1 + l2, h1 + h2, prec, None,
                                    self.aff_add(self.aff_of(a), self.aff_of(b), 1))
            for u, w in ((a, b), (b, a)):
                if u.__class__ is FR and w.__class__ is FX:
                    for mode in ('round', 'trunc'):
                        hit = self.st.fcache.get(('rnd', mode, u.v.get_id()))
                        if hit is not None and hit[0].__class__ is FX and hit[0].n.eq(w.n) and w.s == 0:
                            # the fraction left by rounding to an integer is exact
                            one = Fraction(1)
                            return FR(r1 - r2, max(l1 - h2, -one), min(h1 - l2, one),
                                      self.aff_add(self.aff_of(a), self.aff_of(b), -1))
            v = self.rounded((op, ka, kb, prec), r1 - r2, l1 - h2, h1 - l2, prec, None,
                             self.aff_add(self.aff_of(a), self.aff_of(b), -1))
            if self.opts.get('rel') and v.__class__ is FR:
                # the difference of two values within a factor of two of each other is exact
                self.add(z3.Implies(z3.Or(z3.And(2 * r1 >= r2, r1 <= 2 * r2), z3.And(2 * r1 <= r2, r1 >= 2 * r2)),
                                    v.v == r1 - r2))
            return v
        if op == 'fmul':
            for c, o in ((a, b), (b, a)):
                if c.__class__ is float:
                    if c == 1.0:
                        return o
                    if c == 0.0:
                        return 0.0
                    if c == -1.0:
                        return self.fneg(o, prec)
            if x is not None and y is not None:
                ps = (x[2] * y[2], x[2] * y[3], x[3] * y[2], x[3] * y[3])
                lo, hi = min(ps), max(ps)
                if x[0] is y[0] or (ca is FX and cb is FX and x[0].eq(y[0])):
                    lo = max(lo, 0)
                s = x[1] + y[1]
                if max(-lo, hi) <= 1 << lim:
                    return self.mkfx(self.mulint(x, y, lo, hi), s, lo, hi)
                for c, o in ((a, b), (b, a)):
                    if c.__class__ is float and abs(c.as_integer_ratio()[0]) & (abs(c.as_integer_ratio()[0]) - 1) == 0:
                        # power of two: exact scaling
                        num, den = c.as_integer_ratio()
                        if o.__class__ is FX:
                            k = abs(num).bit_length() - 1
                            sh = o.s + den.bit_length() - 1 - k
                            if sh > -64:
                                if num > 0:
                                    return FX(o.n, sh, o.lo, o.hi)
                                return FX(-o.n, sh, -o.hi, -o.lo)
            r1, l1, h1 = self.as_real(a)
            r2, l2, h2 = self.as_real(b)
            ps = (l1 * l2, l1 * h2, h1 * l2, h1 * h2)
            lo, hi = min(ps), max(ps)
            ka, kb = self.fkey(a), self.fkey(b)
            if ka == kb:
                lo = max(lo, Fraction(0))
            for c, (ro, lo2, hi2) in ((a, (r2, l2, h2)), (b, (r1, l1, h1))):
                if c.__class__ is float:
                    m = abs(c.as_integer_ratio()[0])
                    if m & (m - 1) == 0:
                        return FR(ro * fr2s(Fraction(c)), lo, hi, self.aff_scale(self.aff_of(b if c is a else a), Fraction(c)))
            if r1.__class__ is Fraction:
                r1 = fr2s(r1)
            if r2.__class__ is Fraction:
                r2 = fr2s(r2)
            if str(kb) < str(ka):
                ka, kb = kb, ka
            aff = None
            if ca is float or cb is float:
                c, o = (a, b) if ca is float else (b, a)
                aff = self.aff_scale(self.aff_of(o), Fraction(c))
            return self.rounded((op, ka, kb, prec), r1 * r2, lo, hi, prec, None, aff)
        if op == 'fdiv':
            if cb is float:
                if b == 0:
                    sg = self.fsign(a)
                    if sg == 0:
                        return float('nan')
                    return math.copysign(INF, sg * math.copysign(1.0, b))
                if b == 1.0:
                    return a
                if b == -1.0:
                    return self.fneg(a, prec)
                f = Fraction(b)
                m, d = abs(f.numerator), f.denominator
                if m & (m - 1) == 0:
                    return self.fop('fmul', a, float(1 / f), prec)
                r1, l1, h1 = self.as_real(a)
                lo, hi = sorted((l1 / f, h1 / f))
                return self.rounded((op, self.fkey(a), b, prec), r1 * fr2s(1 / f), lo, hi, prec, None,
                                    self.aff_scale(self.aff_of(a), 1 / f))
            # symbolic divisor
            sg = self.fsign(b)
            if sg == 0:
                sa = self.fsign(a)
                return float('nan') if sa == 0 else math.copysign(INF, sa)
            if ca is float and a == 0:
                return 0.0
            if ca is cb and self.fkey(a) == self.fkey(b):
                return 1.0
            r1, l1, h1 = self.as_real(a)
            r2, l2, h2 = self.as_real(b)
            if r1.__class__ is Fraction:
                r1 = fr2s(r1)
            # bound the quotient: the divisor's magnitude is at least its granularity
            g = self.fmin_abs(b, l2, h2)
            M = max(abs(l1), abs(h1)) / g
            q = self.fresh('q', 'r')
            self.add(q * r2 == r1, q, r1 / r2)
            lo, hi = -M, M
            if l1 >= 0:
                lo, hi = (Fraction(0), M) if sg > 0 else (-M, Fraction(0))
            elif h1 <= 0:
                lo, hi = (-M, Fraction(0)) if sg > 0 else (Fraction(0), M)
            if l2 > 0 or h2 < 0:
                qs = (l1 / l2, l1 / h2, h1 / l2, h1 / h2)
                lo, hi = max(lo, min(qs)), min(hi, max(qs))
            return self.rounded((op, self.fkey(a), self.fkey(b), prec), q, lo, hi, prec, (a, b))
        raise Unsupported(op)

    def mulint(self, x, y, lo, hi):
        """Product of two (expr or int, _, lo, hi); a table over the smaller domain keeps it linear."""
        if x[0].__class__ is int or y[0].__class__ is int:
            return x[0] * y[0]
        if x[3] - x[2] > y[3] - y[2]:
            x, y = y, x
        if x[3] - x[2] > self.opts.get('mul_table', 160):
            return x[0] * y[0]
        key = ('mul', x[0].get_id(), y[0].get_id())
        hit = self.st.fcache.get(key)
        if hit is not None:
            return hit[0]
        same = x[0].eq(y[0])
        q = self.fresh('m')
        cons = [z3.Implies(x[0] == k, q == (k * k if same else k * y[0])) for k in range(x[2], x[3] + 1)]
        self.add(z3.And(q >= lo, q <= hi, *cons), q, x[0] * y[0])
        self.st.fcache[key] = (q, x[0], y[0])
        return q

    def fmin_abs(self, v, lo, hi):
        if lo > 0:
            return lo
        if hi < 0:
            return -hi
        if v.__class__ is FX:
            return p2(v.s)
        raise Unsupported('division by a real that may be arbitrarily small')

    def fsign(self, v):
        """Sign of a symbolic float: forks into negative, zero, positive."""
        if v.__class__ is float:
            return 0 if v == 0 else math.copysign(1.0, v)
        z = self.fcmp('oeq', v, 0.0, 32)
        if self.br(z):
            return 0
        return 1.0 if self.br(self.fcmp('ogt', v, 0.0, 32)) else -1.0

    def mkfx(self, n, s, lo, hi):
        if n.__class__ is int or lo == hi:
            return float(lo * p2(s))
        return FX(n, s, lo, hi)

    def fconc(self, op, a, b, prec):
        if op == 'fadd':
            return rnd(a + b, prec)
        if op == 'fsub':
            return rnd(a - b, prec)
        if op == 'fmul':
            return rnd(a * b, prec)
        if op == 'fdiv':
            if b == 0:
                if a != a or a == 0:
                    return float('nan')
                return math.copysign(INF, math.copysign(1, a) * math.copysign(1, b))
            if a != a or b != b:
                return float('nan')
            if prec == 32 and abs(a) not in (INF,) and abs(b) != INF:
                return f32(a / b)
            return rnd(a / b, prec) if not (abs(a) == INF and abs(b) == INF) else float('nan')
        if op == 'frem':
            if b == 0 or a != a or b != b or abs(a) == INF:
                return float('nan')
            return rnd(math.fmod(a, b), prec)
        raise Unsupported(op)

    def fneg(self, v, prec):
        v = self.res(v)
        c = v.__class__
        if c is float:
            return -v
        if c is FX:
            return FX(-v.n, v.s, -v.hi, -v.lo)
        if c is FR:
            return FR(-v.v, -v.hi, -v.lo, self.aff_scale(self.aff_of(v), Fraction(-1)))
        if c is FP:
            return FP(z3.fpNeg(v.e))
        if c is FH:
            return FH(-v.v, v.nan)
        raise Unsupported('fneg')

    def fabs(self, v, prec):
        v = self.res(v)
        c = v.__class__
        if c is float:
            return abs(v)
        if c is FP:
            return FP(z3.fpAbs(v.e))
        if c is FH:
            return FH(z3.If(v.v >= 0, v.v, -v.v), v.nan)
        if v.lo >= 0:
            return v
        if v.hi <= 0:
            return self.fneg(v, prec)
        M = max(-v.lo, v.hi)
        if c is FX:
            return FX(z3.If(v.n >= 0, v.n, -v.n), v.s, 0, M)
        return FR(z3.If(v.v >= 0, v.v, -v.v), Fraction(0), M)

    def fcmp(self, pred, a, b, prec):
        a = self.res(a)
        b = self.res(b)
        ca, cb = a.__class__, b.__class__
        if ca is tuple:
            return tuple(self.fcmp(pred, x, y, prec) for x, y in zip(a, b))
        if pred == 'true':
            return 1
        if pred == 'false':
            return 0
        if ca is float and cb is float:
            un = a != a or b != b
            if pred == 'ord':
                return (not un) + 0
            if pred == 'uno':
                return un + 0
            if un:
                return 1 if pred[0] == 'u' else 0
            p = pred[1:]
            return {'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[p] + 0
        if ca is FP or cb is FP:
            self.st.fp = self.st.fp or 1
            x = self.fpe(a, prec)
            y = self.fpe(b, prec)
            un = []
            if ca is FP:
                un.append(z3.fpIsNaN(x))
            elif a != a:
                un.append(TRUE)
            if cb is FP and not (ca is FP and x.eq(y)):
                un.append(z3.fpIsNaN(y))
            elif cb is float and b != b:
                un.append(TRUE)
            uno = z3.Or(*un) if len(un) > 1 else un[0]
            if pred == 'uno':
                return self.mkb(z3.simplify(uno))
            if pred == 'ord':
                return self.mkb(z3.simplify(z3.Not(uno)))
            p = pred[1:]
            if p == 'ne':
                o = z3.And(z3.Not(uno), z3.Not(z3.fpEQ(x, y)))
            else:
                o = {'eq': z3.fpEQ, 'lt': z3.fpLT, 'le': z3.fpLEQ, 'gt': z3.fpGT, 'ge': z3.fpGEQ}[p](x, y)
            return self.mkb(z3.simplify(z3.Or(uno, o) if pred[0] == 'u' else o))
        if ca is FH or cb is FH:
            x, nx = self.fh_of(a)
            y, ny = self.fh_of(b)
            un = [n for n in (nx, ny) if n is not None]
            uno = z3.Or(*un) if len(un) > 1 else un[0] if un else FALSE
            if pred == 'uno':
                return self.mkb(z3.simplify(uno))
            if pred == 'ord':
                return self.mkb(z3.simplify(z3.Not(uno)))
            p = pred[1:]
            o = x == y if p == 'eq' else x != y if p == 'ne' else x < y if p == 'lt' else x <= y if p == 'le' else \
                x > y if p == 'gt' else x >= y
            return self.mkb(z3.simplify(z3.Or(uno, o) if pred[0] == 'u' else z3.And(z3.Not(uno), o)))
        if pred == 'uno':
            return 1 if (ca is float and a != a) or (cb is float and b != b) else 0
        if pred == 'ord':
            return 0 if (ca is float and a != a) or (cb is float and b != b) else 1
        p = pred[1:]
        for c in (a, b):
            if c.__class__ is float and c != c:
                return 1 if pred[0] == 'u' else 0
        if ca is float and a in (INF, -INF) or cb is float and b in (INF, -INF):
            big = (ca is float and a == INF) or (cb is float and b == -INF)    # a > b ?
            return {'eq': 0, 'ne': 1, 'lt': 0 if big else 1, 'le': 0 if big else 1, 'gt': 1 if big else 0,
                    'ge': 1 if big else 0}[p]
        x, y = self.as_fx(a), self.as_fx(b)
        if x is not None and y is not None:
            s = max(x[1], y[1])
            xs, ys = 1 << (s - x[1]), 1 << (s - y[1])
            xn = x[0] * xs if xs != 1 else x[0]
            yn = y[0] * ys if ys != 1 else y[0]
            xl, xh, yl, yh = x[2] * xs, x[3] * xs, y[2] * ys, y[3] * ys
            # avoid scaling both sides when one is a constant
            if y[0].__class__ is int and xs != 1:
                return self.cmp_scaled(p, x[0], xs, yn, xl, xh)
            if x[0].__class__ is int and ys != 1:
                return self.cmp_scaled(SWAP[p], y[0], ys, xn, yl, yh)
        else:
            xn, xl, xh = self.as_real(a)
            yn, yl, yh = self.as_real(b)
            if xn.__class__ is Fraction:
                xn = fr2s(xn)
            if yn.__class__ is Fraction:
                yn = fr2s(yn)
        if p in ('gt', 'ge'):
            xn, xl, xh, yn, yl, yh = yn, yl, yh, xn, xl, xh
            p = 'lt' if p == 'gt' else 'le'
        if p == 'lt':
            return 1 if xh < yl else 0 if xl >= yh else self.mkb(xn < yn)
        if p == 'le':
            return 1 if xh <= yl else 0 if xl > yh else self.mkb(xn <= yn)
        if xh < yl or yh < xl:
            return 0 if p == 'eq' else 1
        if xn.__class__ is not int and yn.__class__ is not int and xn.eq(yn):
            return 1 if p == 'eq' else 0
        return self.mkb(xn == yn if p == 'eq' else xn != yn)

    def cmp_scaled(self, p, n, k, c, lo, hi):
        """n * k <p> c for an Int expression n, positive k and integer c."""
        if p == 'lt':
            return 1 if hi < c else 0 if lo >= c else self.mkb(n <= (c - 1) // k)
        if p == 'le':
            return 1 if hi <= c else 0 if lo > c else self.mkb(n <= c // k)
        if p == 'gt':
            return 1 if lo > c else 0 if hi <= c else self.mkb(n > c // k)
        if p == 'ge':
            return 1 if lo >= c else 0 if hi < c else self.mkb(n > (c - 1) // k)
        if c % k:
            return 0 if p == 'eq' else 1
        if hi < c or lo > c:
            return 0 if p == 'eq' else 1
        return self.mkb(n == c // k if p == 'eq' else n != c // k)

    def fround(self, mode, v, prec):
        """mode: round (half away) floor ceil trunc rint."""
        v = self.res(v)
        c = v.__class__
        if c is tuple:
            return tuple(self.fround(mode, x, prec) for x in v)
        if c is float:
            if v != v or abs(v) == INF:
                return v
            if mode == 'round':
                return fround_away(v)
            if mode == 'rint':
                return math.copysign(float(round(v)), v)
            return math.copysign({'floor': math.floor, 'ceil': math.ceil, 'trunc': math.trunc}[mode](v) * 1.0, v)
        if c is FP:
            self.st.fp = self.st.fp or 1
            rm = {'round': RNA, 'floor': z3.RTN(), 'ceil': z3.RTP(), 'trunc': z3.RTZ(), 'rint': RNE}[mode]
            return FP(z3.fpRoundToIntegral(rm, v.e))
        if c is FH:
            return self.havoc(('rnd', mode, self.fkey(v)), v)
        if c is FX:
            if v.s <= 0:
                return v
            k = 1 << v.s
            lo, hi = v.lo, v.hi
            if mode == 'floor':
                return self.mkfx(v.n / k, 0, lo // k, hi // k)
            if mode == 'ceil':
                return self.mkfx(-((-v.n) / k), 0, -(-lo // k), -(-hi // k))
            if mode == 'trunc':
                f = lambda e: z3.If(e >= 0, e / k, -((-e) / k))
                g = lambda i: abs(i) // k * (1 if i >= 0 else -1)
            elif mode == 'round':
                h = k // 2
                f = lambda e: z3.If(e >= 0, (e + h) / k, -((-e + h) / k))
                g = lambda i: (abs(i) + h) // k * (1 if i >= 0 else -1)
                if lo >= 0:
                    f = lambda e: (e + h) / k
            else:
                raise Unsupported(mode)
            return self.mkfx(f(v.n), 0, g(lo), g(hi))
        # real
        M = max(abs(v.lo), abs(v.hi))
        if M >= 1 << 23 and prec == 32 or M >= 1 << 52:
            raise Unsupported('rounding a large real')
        key = ('rnd', mode, v.v.get_id())
        hit = self.st.fcache.get(key)
        if hit is not None:
            return hit[0]
        # near an integer form of earlier integers the result is that form plus a small integer
        link = None
        if v.aff is not None and all(q.denominator == 1 and z3.is_int(x) for x, q in v.aff[0].values()):
            t, c, err = v.aff
            fl = lambda q: q.numerator // q.denominator
            h = Fraction(1, 2)
            olo, ohi = {'floor': (fl(c - err), fl(c + err)), 'ceil': (-fl(err - c), -fl(-err - c)),
                        'round': (-fl(err - c + h), fl(c + err + h)), 'trunc': (fl(c - err), -fl(-err - c))}[mode]
            form = z3.Sum([x * int(q) for x, q in t.values()]) if t else z3.IntVal(0)
            link = (form, olo, ohi)
        k = self.fresh('k')
        kr = z3.ToReal(k)
        e = v.v
        hf = fr2s(Fraction(1, 2))
        fl = lambda q: q.numerator // q.denominator
        if mode == 'floor':
            con = z3.And(kr <= e, e < kr + 1)
            lo, hi = fl(v.lo), fl(v.hi)
        elif mode == 'ceil':
            con = z3.And(kr >= e, e > kr - 1)
            lo, hi = -fl(-v.lo), -fl(-v.hi)
        elif mode == 'round':
            pos = z3.And(kr - hf <= e, e < kr + hf)
            neg = z3.And(kr - hf < e, e <= kr + hf)
            con = pos if v.lo >= 0 else neg if v.hi <= 0 else z3.If(e >= 0, pos, neg)
            g = lambda q: fl(abs(q) + Fraction(1, 2)) * (1 if q >= 0 else -1)
            lo, hi = g(v.lo), g(v.hi)
        elif mode == 'trunc':
            pos = z3.And(kr <= e, e < kr + 1)
            neg = z3.And(kr >= e, e > kr - 1)
            con = pos if v.lo >= 0 else neg if v.hi <= 0 else z3.If(e >= 0, pos, neg)
            g = lambda q: fl(abs(q)) * (1 if q >= 0 else -1)
            lo, hi = g(v.lo), g(v.hi)
        else:
            raise Unsupported(mode)
        if lo == hi:
            return float(lo)
        if link is not None:
            form, olo, ohi = link
            if olo == ohi:
                f = z3.simplify(form + olo)
                r = FX(f, 0, lo, hi)
                self.add(z3.And(f >= lo, f <= hi))
                self.st.fcache[key] = (r, e)
                return r
            con = z3.And(con, k >= form + olo, k <= form + ohi)
        # two values whose linear forms differ by integers round to integers that differ by about as much
        h = Fraction(1, 2)
        R = {'floor': (-1, 0), 'ceil': (0, 1), 'round': (-h, h), 'trunc': (-1, 1)}
        af = self.aff_of(v)
        for a2, m2, k2, _ in self.st.rints[-12:]:
            t, c, err = self.aff_add(af, a2, -1)
            if len(t) <= 4 and all(q.denominator == 1 and z3.is_int(x) for x, q in t.values()):
                a = c - err + R[mode][0] - R[m2][1]
                b = c + err + R[mode][1] - R[m2][0]
                d = k - k2
                for x, q in t.values():
                    d = d - x * int(q)
                con = z3.And(con, d >= -fl(-a), d <= fl(b))
        self.st.rints = self.st.rints + ((af, mode, k, e),)
        def val(m):
            x = m.eval(e, model_completion=True)
            if not z3.is_rational_value(x):
                return None
            x = x.as_fraction()
            if mode == 'floor':
                return zint(fl(x))
            if mode == 'ceil':
                return zint(-fl(-x))
            return zint((fl(abs(x) + Fraction(1, 2)) if mode == 'round' else fl(abs(x))) * (1 if x >= 0 else -1))
        self.add(z3.And(con, k >= lo, k <= hi), k, val)
        r = FX(k, 0, lo, hi)
        self.st.fcache[key] = (r, e)
        return r

    def ftoi(self, v, N, signed, sat, prec):
        v = self.res(v)
        c = v.__class__
        if c is tuple:
            return tuple(self.ftoi(x, N, signed, sat, prec) for x in v)
        mn, mx = (-(1 << (N - 1)), (1 << (N - 1)) - 1) if signed else (0, (1 << N) - 1)
        if c is float:
            if v != v:
                return 0
            if v == INF:
                i = mx
            elif v == -INF:
                i = mn
            else:
                i = min(max(int(v), mn), mx)
            return i & ((1 << N) - 1)
        if c is FP or c is FH:
            raise Unsupported('float to int on an IEEE term')
        t = self.fround('trunc', v, prec)
        if t.__class__ is float:
            return self.ftoi(t, N, signed, sat, prec)
        if t.s:
            assert t.s < 0
            t = FX(t.n * (1 << -t.s), 0, t.lo << -t.s, t.hi << -t.s)
        if self.opts.get('conc_ftoi'):
            return self.ftoi(float(self.concretize_expr(t.n, 'converted float')), N, signed, sat, prec)
        if t.lo >= mn and t.hi <= mx:
            return SI(t.n, t.lo, t.hi)
        e = z3.If(t.n < mn, zint(mn), z3.If(t.n > mx, zint(mx), t.n))
        return SI(e, max(t.lo, mn), min(t.hi, mx))

    def itof(self, v, N, signed, prec):
        v = self.res(v, N)
        if v.__class__ is tuple:
            return tuple(self.itof(x, N, signed, prec) for x in v)
        if v.__class__ is int:
            if signed and v >> (N - 1):
                v -= 1 << N
            return self.i2f(v, prec)
        v = self.as_si(v, N)
        if v.__class__ is int:
            return self.itof(v, N, signed, prec)
        e, lo, hi = self.sig(v, N) if signed else self.uns(v, N)
        if max(-lo, hi) <= (1 << 24 if prec == 32 else 1 << 53):
            return FX(e, 0, lo, hi)
        # multiples of a power of two
        t, c = self.zlin(e)
        s = 0
        while s < 62 and all(q.numerator % (2 << s) == 0 for q in [c] + [q for _, q in t.values()]):
            s += 1
        g = 1 << s
        if s and lo % g == 0 and hi % g == 0 and max(-lo, hi) // g <= (1 << 24 if prec == 32 else 1 << 53):
            n = z3.Sum([x if q == g else x * int(q / g) for x, q in t.values()] + ([zint(int(c / g))] if c else []))
            return self.mkfx(z3.simplify(n), -s, lo // g, hi // g)
        return self.rounded(('itof', e.get_id(), prec), z3.ToReal(e), Fraction(lo), Fraction(hi), prec)

    def i2f(self, v, prec):
        if prec == 64:
            return float(v)
        if abs(v) <= 1 << 53:
            return f32(float(v))
        # avoid double rounding
        s = abs(v)
        sh = s.bit_length() - 24
        q, r = s >> sh, s & ((1 << sh) - 1)
        h = 1 << (sh - 1)
        if r > h or (r == h and q & 1):
            q += 1
        return math.copysign(float(q << sh), v)

    def fptrunc(self, v):
        v = self.res(v)
        c = v.__class__
        if c is float:
            return f32(v)
        if c is FX:
            if max(-v.lo, v.hi) <= 1 << 24:
                return v
        if c is FP:
            return FP(z3.fpFPToFP(RNE, v.e, FS[32]))
        if c is FH:
            return self.havoc(('tr', self.fkey(v)), v)
        r, lo, hi = self.as_real(v)
        return self.rounded(('tr', self.fkey(v)), r, lo, hi, 32, None, self.aff_of(v))

    def fpext(self, v):
        v = self.res(v)
        if v.__class__ is FP:
            return FP(z3.fpFPToFP(RNE, v.e, FS[64]))
        return v      # (FH: any float)

    def fminmax(self, op, a, b, prec):
        """minnum / maxnum / minimumnum / maximumnum: the other operand when one is NaN."""
        a = self.res(a)
        b = self.res(b)
        ca, cb = a.__class__, b.__class__
        if ca is float and a != a:
            return b
        if cb is float and b != b:
            return a
        mn = op.startswith('min')
        if ca is FP or cb is FP:
            x, y = self.fpe(a, prec), self.fpe(b, prec)
            self.st.fp = self.st.fp or 1
            lt = z3.fpLT(x, y) if mn else z3.fpGT(x, y)
            return FP(z3.If(z3.fpIsNaN(x), y, z3.If(z3.fpIsNaN(y), x, z3.If(lt, x, y))))
        if ca is FH or cb is FH:
            x, nx = self.fh_of(a)
            y, ny = self.fh_of(b)
            e = z3.If(x <= y if mn else x >= y, x, y)
            if nx is not None:
                e = z3.If(nx, y, e)
            if ny is not None:
                e = z3.If(ny, x, e)
            return FH(e, None if nx is None or ny is None else z3.And(nx, ny))
        c = self.fcmp('ole' if mn else 'oge', a, b, prec)
        if c.__class__ is int:
            return a if c else b
        return self.select(c, a, b, 'f%d' % prec)

    def fsqrt(self, v, prec):
        v = self.res(v)
        c = v.__class__
        if c is float:
            if v < 0:
                return float('nan')
            return rnd(math.sqrt(v), prec) if v != INF and v == v else v
        if c is FP:
            self.st.fp = self.st.fp or 1
            return FP(z3.fpSqrt(RNE, v.e))
        key = ('sqrt', self.fkey(v), prec)
        if c is FH or self.opts.get('havoc'):
            if c is FR and v.aff is not None:
                # products that only the root needs need not be defined
                drop = [self.st.fcache.get(('nl', i)) for i in v.aff[0]]
                drop = [d[0].get_id() for d in drop if d]
                if drop:
                    self.st.pc = [x for x in self.st.pc if x.get_id() not in drop]
            return self.havoc(key, v, 1)
        hit = self.st.fcache.get(key)
        if hit is not None:
            return hit[0]
        r, lo, hi = self.as_real(v)
        if lo < 0:
            if self.br(self.fcmp('olt', v, 0.0, prec)):
                return float('nan')
            lo = Fraction(0)
        q = self.fresh('sq', 'r')
        sl = Fraction(math.isqrt(int(lo * 10 ** 12)), 10 ** 6)
        sh = Fraction(math.isqrt(int(hi * 10 ** 12)) + 2, 10 ** 6)
        self.add(z3.And(q * q == r, q >= fr2s(sl), q <= fr2s(sh)))
        return self.rounded(key, q, sl, sh, prec, v)

    def funary_uf(self, name, v, prec):
        """ln / exp / sin / cos: exact libm value when concrete, otherwise any value in the function's range,
        the same for the same argument."""
        v = self.res(v)
        c = v.__class__
        if c is float:
            f = {'log': 'log', 'exp': 'exp', 'sin': 'sin', 'cos': 'cos'}[name]
            if prec == 32:
                return getattr(_libm, f + 'f')(v)
            return getattr(_libm, f)(v)
        key = ('uf', name, self.fkey(v), prec)
        hit = self.st.fcache.get(key)
        if hit is not None:
            return hit[0]
        if c is FP:
            self.st.fp = self.st.fp or 1
            self.uid += 1
            e = z3.FP('%s!%d' % (name, self.uid), FS[prec])
            r = FP(e)
            self.st.fcache[key] = (r, v)
            self.on_uf(name, v, r, prec)
            return r
        x = self.fresh(name, 'r')
        if name in ('sin', 'cos'):
            self.add(z3.And(x >= -1, x <= 1), x, z3.Q(1, 2))
            r = FR(x, Fraction(-1), Fraction(1))
        else:
            return self.log_exp(name, v, prec, key)
        self.st.fcache[key] = (r, v)
        return r

    def log_exp(self, name, v, prec, key):
        """ln / exp of a real: any value within the accuracy of libm's functions (better than one unit in the last
        place), consistent with the other logarithms and exponentials of the path: with y = ln x and e = exp(z),
        x * (1 + z - y) <= e <= x / (1 - (z - y)) up to that accuracy."""
        ulp = Fraction(1, 1 << (23 if prec == 32 else 52))
        a, lo, hi = self.as_real(v)
        if a.__class__ is Fraction:
            a = fr2s(a)
        if name == 'log':
            if lo <= 0:
                if self.br(self.fcmp('olt', v, 0.0, prec)):
                    return float('nan')
                if self.br(self.fcmp('oeq', v, 0.0, prec)):
                    return -INF
                lo = Fraction(2) ** -149
                self.add(a >= fr2s(lo))
            bl, bh = Fraction(math.log(lo.numerator) - math.log(lo.denominator)), Fraction(math.log(hi.numerator) - math.log(hi.denominator))
        else:
            if hi > 88:
                raise Unsupported('exp of a large real')
            bl, bh = Fraction(math.exp(max(lo, -800))), Fraction(math.exp(hi))
        bl, bh = bl - abs(bl) * ulp * 2 - Fraction(2) ** -150, bh + abs(bh) * ulp * 2 + Fraction(2) ** -150
        if name == 'exp':
            bl = max(bl, Fraction(0))
        w = self.fresh(name, 'r')
        cons = [w >= fr2s(bl), w <= fr2s(bh)]
        pairs = [(k, u[0], u[1]) for k, u in list(self.st.fcache.items())
                 if k[0] == 'uf' and k[1] in ('log', 'exp') and k[3] == prec and u[0].__class__ is FR]
        hint = (bl + bh) / 2
        for k, r2, v2 in pairs:
            b = self.as_real(v2)[0]
            if k[1] == name:
                cons += [z3.Implies(a <= b, w <= r2.v), z3.Implies(b <= a, r2.v <= w)]
                continue
            x, y, e, z = (b, r2.v, w, a) if name == 'exp' else (a, w, r2.v, b)
            yl, yh = (r2.lo, r2.hi) if name == 'exp' else (bl, bh)
            d = z - y
            if self.same_real(z, y):
                d = zint(0)
            c = fr2s((max(abs(yl), abs(yh)) + 1) * ulp * Fraction(102, 100))
            cons += [e >= x * (1 + d) * (1 - c), e * (1 - d) <= x * (1 + c)]
        self.add(z3.And(*cons), w, fr2s(hint))
        r = FR(w, bl, bh)
        self.st.fcache[key] = (r, v)
        return r

    def same_real(self, a, b):
        return z3.is_expr(a) and z3.is_expr(b) and a.eq(b)

    def on_uf(self, name, v, r, prec):
        """What is known of libm's logf and expf at any f32: where they are NaN, that they are monotone (checked
        exhaustively against this libm, see DESIGN.md) and their values at the points of a table."""
        if prec != 32 or name not in ('log', 'exp'):
            return
        x, y = v.e, r.e
        s = FS[prec]
        nan, inf = z3.fpIsNaN, z3.fpPlusInfinity(s)
        fp = lambda c: z3.FPVal(c, s)
        ax = [nan(y) == (z3.Or(nan(x), z3.fpLT(x, fp(0.0))) if name == 'log' else nan(x))]
        if name == 'log':
            pts = [0.0, 1e-38, 1e-6, 0.01, 0.1, 0.25, 0.5, 0.75, 0.9, 1 - 2.0**-24, 1.0, 1 + 2.0**-23, 1.5, 2.0, 4.0, 10.0, 100.0, 1e6, 1e38, INF]
            f = _libm.logf
        else:
            pts = [-INF, -104.0, -88.0, -40.0, -17.0, -5.0, -2.0, -1.0, -0.5, -0.1, 0.0, 0.1, 0.5, 1.0, 2.0, 5.0, 17.0,
                   40.0, 88.0, 89.0, INF]
            f = _libm.expf
        for c in pts:
            c = f32(c)
            d = -INF if name == 'log' and c == 0 else f(c)
            ax.append(z3.Implies(z3.fpLEQ(x, fp(c)), z3.Or(nan(y), z3.fpLEQ(y, fp(d)))))
            ax.append(z3.Implies(z3.fpGEQ(x, fp(c)), z3.fpGEQ(y, fp(d))))
        for k, u in self.st.fcache.items():
            if k[0] == 'uf' and k[1] == name and u[0] is not r and u[0].__class__ is FP:
                r2, v2 = u
                a, b = v2.e, r2.e
                ax.append(z3.Implies(z3.fpLEQ(a, x), z3.Or(nan(b), z3.fpLEQ(b, y))))
                ax.append(z3.Implies(z3.fpLEQ(x, a), z3.Or(nan(y), z3.fpLEQ(y, b))))
        self.add(z3.And(*ax))


SWAP = {'lt': 'gt', 'gt': 'lt', 'le': 'ge', 'ge': 'le', 'eq': 'eq', 'ne': 'ne'}
