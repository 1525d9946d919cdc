"""Symbolic values of the executor.

int            concrete integer / pointer, stored unsigned (mod 2^width); i1 as 0 / 1
float          concrete f32 / f64 (f32 values are exactly representable doubles)
tuple          aggregates and vectors
SB(e)          symbolic i1, e a z3 Bool
SI(e, lo, hi)  symbolic integer: z3 Int e with lo <= e <= hi, inside [-(2^(w-1)), 2^w); the machine value is
               e mod 2^w
FX(n, s, ...)  symbolic float with the exact value n / 2^s, n a z3 Int with lo <= n <= hi (never NaN, inf or -0)
FR(v, lo, hi)  symbolic float as a z3 Real v in [lo, hi] (never NaN or inf; sign of zero not modelled); every
               operation that may round yields a fresh real within half an ulp of the exact result
FP(e, bv)      symbolic float with IEEE semantics, e a z3 FP term; bv its bit pattern when it has one
Cat(b)         a byte-wise composite (little endian); each byte is an int or (value, index, size)
"""


class V:
    __slots__ = ()


class SB(V):
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e


class SI(V):
    __slots__ = ('e', 'lo', 'hi')

    def __init__(self, e, lo, hi):
        self.e = e
        self.lo = lo
        self.hi = hi


class FX(V):
    __slots__ = ('n', 's', 'lo', 'hi')

    def __init__(self, n, s, lo, hi):
        self.n = n
        self.s = s
        self.lo = lo
        self.hi = hi


class FR(V):
    # aff: ({expr id: (expr, coefficient)}, constant, error): the value is within error of that linear form
    __slots__ = ('v', 'lo', 'hi', 'aff')

    def __init__(self, v, lo, hi, aff=None):
        self.v = v
        self.lo = lo
        self.hi = hi
        self.aff = aff


class FP(V):
    __slots__ = ('e', 'bv')

    def __init__(self, e, bv=None):
        self.e = e
        self.bv = bv


class FH(V):
    # any float (option havoc): z3 Real v, with infinities at +-2^129, unless the z3 Bool nan (None: never NaN)
    __slots__ = ('v', 'nan')

    def __init__(self, v, nan=None):
        self.v = v
        self.nan = nan


class Cat(V):
    __slots__ = ('b',)

    def __init__(self, b):
        self.b = b


class Fork(Exception):
    """Alternatives: list of (constraint or None, {expr id: (value, expr)})."""

    def __init__(self, alts):
        self.alts = alts


class PathEnd(Exception):
    def __init__(self, why):
        self.why = why


class Unsupported(Exception):
    pass


class Violation(Exception):
    def __init__(self, label, model=None):
        self.label = label
        self.model = model
