"""Floating-point and machine-word values for specifications, in both worlds.
Symbolic floats are FloatVal (IEEE, exact in the solver), concrete ones CF (bits; arithmetic by the host's IEEE unit).
Machine words (Wd) are used by contracts verified with bit-vector machine arithmetic (opts dom=BV)."""
import math
import struct
import warnings
import numpy as np
import z3
from .terms import *
from . import world as Wm
from .world import B, N, mkb, mkn, raw, CF, SymWorld, ConWorld, CUR, F

warnings.filterwarnings('ignore')
np.seterr(all='ignore')


def _b(r):
    r = z3.simplify(r)
    return True if z3.is_true(r) else False if z3.is_false(r) else B(keep(r))


# ---------------------------------------------------------------- symbolic floats
def sf(x, w):
    if isinstance(x, FloatVal):
        return x
    if isinstance(x, F):
        return x.v
    if isinstance(x, CF):
        return FloatVal(x.w, bits=z3.BitVecVal(x.bits, x.w))
    return FloatVal(w, bits=z3.BitVecVal(pybits(float(x), w), w))


def pybits(x, w):
    return struct.unpack('<Q', struct.pack('<d', x))[0] if w == 64 else int(np.float32(x).view(np.uint32))


def _sop(name, f):
    def op(a, o):
        b = sf(o, a.w)
        return FloatVal(a.w, fp=keep(z3.simplify(f(a.fp, b.fp))))

    def rop(a, o):
        b = sf(o, a.w)
        return FloatVal(a.w, fp=keep(z3.simplify(f(b.fp, a.fp))))
    setattr(FloatVal, '__%s__' % name, op)
    setattr(FloatVal, '__r%s__' % name, rop)


_sop('add', lambda a, b: z3.fpAdd(z3.RNE(), a, b))
_sop('sub', lambda a, b: z3.fpSub(z3.RNE(), a, b))
_sop('mul', lambda a, b: z3.fpMul(z3.RNE(), a, b))
_sop('truediv', lambda a, b: z3.fpDiv(z3.RNE(), a, b))
FloatVal.__lt__ = lambda a, o: _b(z3.fpLT(a.fp, sf(o, a.w).fp))
FloatVal.__le__ = lambda a, o: _b(z3.fpLEQ(a.fp, sf(o, a.w).fp))
FloatVal.__gt__ = lambda a, o: _b(z3.fpGT(a.fp, sf(o, a.w).fp))
FloatVal.__ge__ = lambda a, o: _b(z3.fpGEQ(a.fp, sf(o, a.w).fp))
FloatVal.__neg__ = lambda a: FloatVal(a.w, bits=keep(z3.simplify(a.bits ^ z3.BitVecVal(1 << (a.w - 1), a.w)))) if a.has_bits() else FloatVal(a.w, fp=keep(z3.simplify(z3.fpNeg(a.fp))))


def S_feq(self, a, b):
    w = a.w if isinstance(a, (FloatVal, CF)) else b.w
    return _b(z3.fpEQ(sf(a, w).fp, sf(b, w).fp))


def S_fnan(self, a):
    return _b(z3.fpIsNaN(a.fp))


def S_finf(self, a):
    return _b(z3.fpIsInf(a.fp))


def S_fneg_sign(self, a):
    """sign bit set"""
    return _b(z3.Extract(a.w - 1, a.w - 1, a.bits) == 1)


def S_fsame(self, a, b):
    w = a.w if isinstance(a, (FloatVal, CF)) else b.w
    a, b = sf(a, w), sf(b, w)
    return _b(a.fp == b.fp)


def S_fabs(self, a):
    if a.has_bits():
        return FloatVal(a.w, bits=keep(z3.simplify(a.bits & z3.BitVecVal((1 << (a.w - 1)) - 1, a.w))))
    return FloatVal(a.w, fp=keep(z3.simplify(z3.fpAbs(a.fp))))


RM = {'even': z3.RNE(), 'floor': z3.RTN(), 'ceil': z3.RTP(), 'trunc': z3.RTZ()}


def S_fround(self, a, mode):
    return FloatVal(a.w, fp=keep(z3.simplify(z3.fpRoundToIntegral(RM[mode], a.fp))))


def S_i2f(self, n, w=64):
    v = raw(n)
    if isinstance(v, Wd):
        raise Exception('use Wd.tof')
    return self.eng.sitofp(v, 64, w, True, self.st) if self.eng.dom is INT or isinstance(v, int) else FloatVal(w, fp=keep(z3.fpSignedToFP(z3.RNE(), v, z3.Float64() if w == 64 else z3.Float32())))


def S_f2i(self, a, w=64, signed=True):
    """truncation toward zero of a value known to fit (no condition is generated here)"""
    if self.eng.dom is not INT:
        return Wd(w, keep((z3.fpToSBV if signed else z3.fpToUBV)(z3.RTZ(), a.fp, z3.BitVecSort(w))))
    s = self.ctx.silent
    self.ctx.silent += 1
    try:
        return mkn(self.eng.fptoint_value(a, w, signed, self.st))
    finally:
        self.ctx.silent = s


def S_fconv(self, a, w):
    s = z3.Float64() if w == 64 else z3.Float32()
    return a if a.w == w else FloatVal(w, fp=keep(z3.simplify(z3.fpFPToFP(z3.RNE(), a.fp, s))))


def S_fuf(self, name, *a):
    """the same function of the C library, unspecified"""
    s = z3.Float64() if a[0].w == 64 else z3.Float32()
    fn = z3.Function(name, *([s] * len(a) + [s]))
    return FloatVal(a[0].w, fp=keep(fn(*[x.fp for x in a])))


def S_ffma(self, a, b, c):
    return FloatVal(64, fp=keep(z3.fpFMA(z3.RNE(), a.fp, b.fp, c.fp)))


def S_fc(self, x, w=64):
    return sf(x, w)


def S_fsqrt(self, a):
    return FloatVal(a.w, fp=keep(z3.simplify(z3.fpSqrt(z3.RNE(), a.fp))))


# ---------------------------------------------------------------- concrete floats
def nv(x, w):
    if isinstance(x, CF):
        return np.uint64(x.bits).view(np.float64) if x.w == 64 else np.uint32(x.bits).view(np.float32)
    return np.float64(x) if w == 64 else np.float32(x)


def cf(v):
    return CF(64, int(v.view(np.uint64))) if isinstance(v, np.float64) else CF(32, int(v.view(np.uint32)))


def _cop(name, f):
    setattr(CF, '__%s__' % name, lambda a, o: cf(f(nv(a, a.w), nv(o, a.w))))
    setattr(CF, '__r%s__' % name, lambda a, o: cf(f(nv(o, a.w), nv(a, a.w))))


_cop('add', lambda a, b: a + b)
_cop('sub', lambda a, b: a - b)
_cop('mul', lambda a, b: a * b)
_cop('truediv', lambda a, b: a / b)
CF.__lt__ = lambda a, o: bool(nv(a, a.w) < nv(o, a.w))
CF.__le__ = lambda a, o: bool(nv(a, a.w) <= nv(o, a.w))
CF.__gt__ = lambda a, o: bool(nv(a, a.w) > nv(o, a.w))
CF.__ge__ = lambda a, o: bool(nv(a, a.w) >= nv(o, a.w))
CF.__neg__ = lambda a: CF(a.w, a.bits ^ (1 << (a.w - 1)))


def C_feq(self, a, b):
    w = a.w if isinstance(a, CF) else b.w
    return bool(nv(a, w) == nv(b, w))


def C_fnan(self, a):
    return bool(np.isnan(nv(a, a.w)))


def C_finf(self, a):
    return bool(np.isinf(nv(a, a.w)))


def C_fneg_sign(self, a):
    return bool(a.bits >> (a.w - 1))


def C_fsame(self, a, b):
    w = a.w if isinstance(a, CF) else b.w
    x, y = nv(a, w), nv(b, w)
    if np.isnan(x) or np.isnan(y):
        return bool(np.isnan(x) and np.isnan(y))
    return cf(x).bits == cf(y).bits


def C_fabs(self, a):
    return CF(a.w, a.bits & ((1 << (a.w - 1)) - 1))


def C_fround(self, a, mode):
    return cf({'even': np.rint, 'floor': np.floor, 'ceil': np.ceil, 'trunc': np.trunc}[mode](nv(a, a.w)))


def C_i2f(self, n, w=64):
    return CF(w, round_int(int(n), w))


def round_int(n, w):
    """bits of n rounded to nearest even"""
    if w == 64:
        return pybits(float(n), 64)
    if n == 0:
        return 0
    s, m = (1 << 31, -n) if n < 0 else (0, n)
    e = m.bit_length() - 24
    if e > 0:
        q, r = m >> e, m & ((1 << e) - 1)
        h = 1 << (e - 1)
        if r > h or (r == h and q & 1):
            q += 1
        m = q << e
    return pybits(float(m), 32) | s


def C_f2i(self, a, w=64, signed=True):
    v = a.val()
    if v != v or abs(v) == math.inf:
        raise Wm.Reject()
    return int(v)


def C_fconv(self, a, w):
    if a.w == w:
        return a
    v = nv(a, a.w)
    return cf(np.float64(v) if w == 64 else np.float32(v))


LIBM = {'log': np.log, 'exp': np.exp, 'sin': np.sin, 'cos': np.cos, 'tan': np.tan}


class NoOracle(Exception):
    pass


def C_fuf(self, name, *a):
    import ctypes
    import ctypes.util
    global _m
    try:
        _m
    except NameError:
        _m = ctypes.CDLL(ctypes.util.find_library('m') or 'libm.so.6')
    f = getattr(_m, name)
    t = ctypes.c_double if a[0].w == 64 else ctypes.c_float
    f.restype = t
    f.argtypes = [t] * len(a)
    r = f(*[float(x.val()) for x in a])
    return CF(a[0].w, pybits(r, a[0].w))


def C_ffma(self, a, b, c):
    return C_fuf(self, 'fma', a, b, c)


def C_fc(self, x, w=64):
    return x if isinstance(x, CF) else CF(w, pybits(float(x), w))


def C_fsqrt(self, a):
    return cf(np.sqrt(nv(a, a.w)))


for _k in list(globals()):
    if _k.startswith('S_'):
        setattr(SymWorld, _k[2:], globals()[_k])
    if _k.startswith('C_'):
        setattr(ConWorld, _k[2:], globals()[_k])


# ---------------------------------------------------------------- machine words
class Wd:
    """w-bit machine word; t is a z3 bit-vector term or a python int in [0, 2^w)"""
    __slots__ = ('w', 't')

    def __init__(self, w, t):
        self.w = w
        if isinstance(t, int):
            t &= (1 << w) - 1
        elif z3.is_bv_value(t):
            t = t.as_long()
        self.t = t

    def con(self):
        return isinstance(self.t, int)

    def z(self):
        return z3.BitVecVal(self.t, self.w) if isinstance(self.t, int) else self.t

    def _o(self, o):
        return o if isinstance(o, Wd) else Wd(self.w, o)

    def _bin(self, o, ci, zi_):
        o = self._o(o)
        if self.con() and o.con():
            return Wd(self.w, ci(self.t, o.t))
        return Wd(self.w, keep(z3.simplify(zi_(self.z(), o.z()))))

    def __add__(self, o): return self._bin(o, lambda a, b: a + b, lambda a, b: a + b)
    def __sub__(self, o): return self._bin(o, lambda a, b: a - b, lambda a, b: a - b)
    def __mul__(self, o): return self._bin(o, lambda a, b: a * b, lambda a, b: a * b)
    def __and__(self, o): return self._bin(o, lambda a, b: a & b, lambda a, b: a & b)
    def __or__(self, o): return self._bin(o, lambda a, b: a | b, lambda a, b: a | b)
    def __xor__(self, o): return self._bin(o, lambda a, b: a ^ b, lambda a, b: a ^ b)
    def __lshift__(self, o): return self._bin(o, lambda a, b: a << b if b < self.w else 0, lambda a, b: a << b)
    def __rshift__(self, o): return self._bin(o, lambda a, b: a >> b if b < self.w else 0, lambda a, b: z3.LShR(a, b))
    __radd__ = __add__

    def sgn(self):
        return self.t - (1 << self.w) if self.t >> (self.w - 1) else self.t

    def _cmp(self, o, ci, zi_):
        o = self._o(o)
        if self.con() and o.con():
            return ci(self, o)
        return _b(zi_(self.z(), o.z()))

    def __eq__(self, o): return self._cmp(o, lambda a, b: a.t == b.t, lambda a, b: a == b)
    def __ne__(self, o): return self._cmp(o, lambda a, b: a.t != b.t, lambda a, b: a != b)
    def ult(self, o): return self._cmp(o, lambda a, b: a.t < b.t, lambda a, b: z3.ULT(a, b))
    def ule(self, o): return self._cmp(o, lambda a, b: a.t <= b.t, lambda a, b: z3.ULE(a, b))
    def slt(self, o): return self._cmp(o, lambda a, b: a.sgn() < b.sgn(), lambda a, b: a < b)
    def sle(self, o): return self._cmp(o, lambda a, b: a.sgn() <= b.sgn(), lambda a, b: a <= b)
    __hash__ = None

    def sext(self, w):
        return Wd(w, self.sgn()) if self.con() else Wd(w, keep(z3.SignExt(w - self.w, self.t)))

    def zext(self, w):
        return Wd(w, self.t) if self.con() else Wd(w, keep(z3.ZeroExt(w - self.w, self.t)))

    def trunc(self, w):
        return Wd(w, self.t) if self.con() else Wd(w, keep(z3.simplify(z3.Extract(w - 1, 0, self.t))))

    def tof(self, w=64, signed=True):
        if self.con():
            return CF(w, round_int(self.sgn() if signed else self.t, w))
        s = z3.Float64() if w == 64 else z3.Float32()
        return FloatVal(w, fp=keep(z3.fpSignedToFP(z3.RNE(), self.t, s) if signed else z3.fpUnsignedToFP(z3.RNE(), self.t, s)))

    def sdiv(self, o):
        o = self._o(o)
        if self.con() and o.con():
            a, b = self.sgn(), o.sgn()
            q = abs(a) // abs(b)
            return Wd(self.w, q if (a < 0) == (b < 0) else -q)
        return Wd(self.w, keep(self.z() / o.z()))

    def udiv(self, o):
        o = self._o(o)
        if self.con() and o.con():
            return Wd(self.w, self.t // o.t)
        return Wd(self.w, keep(z3.UDiv(self.z(), o.z())))


def wd(self, x, w=32):
    """machine word of an integer input"""
    from .setup import BVN
    if isinstance(x, Wd):
        return x
    if isinstance(x, BVN):
        return Wd(x.w, x.t)
    if isinstance(x, (z3.ExprRef, N)):
        return Wd(w, raw(x))
    return Wd(w, int(x))


SymWorld.wd = wd
ConWorld.wd = wd
SymWorld.fbits = lambda self, a: Wd(a.w, a.bits)
ConWorld.fbits = lambda self, a: Wd(a.w, a.bits)
SymWorld.fromb = lambda self, x: FloatVal(x.w, bits=x.z())
ConWorld.fromb = lambda self, x: CF(x.w, x.t)


def S_fif(self, c, a, b):
    c = raw(c)
    if isinstance(c, bool):
        return a if c else b
    w = a.w if isinstance(a, FloatVal) else b.w
    a, b = sf(a, w), sf(b, w)
    return FloatVal(w, fp=keep(z3.If(c, a.fp, b.fp)))


SymWorld.fif = S_fif
ConWorld.fif = lambda self, c, a, b: self.fc(a, 64) if c else self.fc(b, 64)


def S_wd_if(self, c, a, b):
    c = raw(c)
    if isinstance(c, bool):
        return a if c else b
    return Wd(a.w, keep(z3.If(c, a.z(), b.z())))


SymWorld.wd_if = S_wd_if
ConWorld.wd_if = lambda self, c, a, b: a if c else b


def S_fscale(self, x, n):
    s = z3.Float64()
    fn = z3.Function('scalbn_i', s, z3.IntSort(), s)
    return FloatVal(64, fp=keep(fn(x.fp, z3.IntVal(n) if isinstance(n, int) else raw(n))))


def C_fscale(self, x, n):
    v = x.val()
    if v != v or v in (math.inf, -math.inf) or v == 0:
        return x
    try:
        return CF(64, pybits(math.ldexp(v, max(-3000, min(3000, n))), 64))
    except OverflowError:
        return CF(64, pybits(math.copysign(math.inf, v), 64))


SymWorld.fscale = S_fscale
ConWorld.fscale = C_fscale
