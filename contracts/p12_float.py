"""Floating-point classification and bit-level operations (exact IEEE semantics in the solver)."""
from engine.verify import contract
from engine.terms import BV
from .kinds import *

P = 'P12'
M = '_ZN13DotnetLibrary4Math'
f1 = lambda S: [S.f64('x')]
f2 = lambda S: [S.f64('x'), S.f64('y')]
f3 = lambda S: [S.f64('x'), S.f64('y'), S.f64('z')]
g1 = lambda S: [S.f32('x')]
g2 = lambda S: [S.f32('x'), S.f32('y')]
g3 = lambda S: [S.f32('x'), S.f32('y'), S.f32('z')]
bv = {'dom': BV}


def fmax(W, x, y):
    if W.fnan(x):
        return x
    if W.fnan(y):
        return y
    if x < y:
        return y
    if y < x:
        return x
    return y if W.fneg_sign(x) else x


def fmin(W, x, y):
    if W.fnan(x):
        return x
    if W.fnan(y):
        return y
    if x < y:
        return x
    if y < x:
        return y
    return x if W.fneg_sign(x) else y


def fmaxmag(W, x, y):
    if W.fnan(x):
        return x
    if W.fnan(y):
        return y
    if W.fabs(x) < W.fabs(y):
        return y
    if W.fabs(y) < W.fabs(x):
        return x
    return y if W.fneg_sign(x) else x


def fminmag(W, x, y):
    if W.fnan(x):
        return x
    if W.fnan(y):
        return y
    if W.fabs(x) < W.fabs(y):
        return x
    if W.fabs(y) < W.fabs(x):
        return y
    return x if W.fneg_sign(x) else y


def fclamp(W, v, lo, hi):
    if lo > hi:
        W.throw('ThrowMinMaxException')
    if v < lo:
        return lo
    if v > hi:
        return hi
    return v


def fsign(W, v):
    if W.fnan(v):
        W.throw('ArithmeticException')
    return 1 if v > 0 else -1 if v < 0 else 0


contract('Math.Max.f64', P, M + '3MaxEdd', 'f64', setup=f2, spec=fmax)
contract('Math.Max.f32', P, M + '3MaxEff', 'f32', setup=g2, spec=fmax)
contract('Math.Min.f64', P, M + '3MinEdd', 'f64', setup=f2, spec=fmin)
contract('Math.Min.f32', P, M + '3MinEff', 'f32', setup=g2, spec=fmin)
contract('Math.MaxMagnitude', P, M + '12MaxMagnitudeEdd', 'f64', setup=f2, spec=fmaxmag)
contract('Math.MinMagnitude', P, M + '12MinMagnitudeEdd', 'f64', setup=f2, spec=fminmag)
contract('Math.Clamp.f64', P, M + '5ClampEddd', 'f64', setup=f3, spec=fclamp)
contract('Math.Clamp.f32', P, M + '5ClampEfff', 'f32', setup=g3, spec=fclamp)
contract('Math.Sign.f64', P, M + '4SignEd', 'i32', setup=f1, spec=fsign)
contract('Math.Sign.f32', P, M + '4SignEf', 'i32', setup=g1, spec=fsign)
contract('Math.Abs.f64', P, M + '3AbsEd', 'f64', setup=f1, spec=lambda W, x: W.fabs(x))
contract('Math.Abs.f32', P, M + '3AbsEf', 'f64', setup=g1, spec=lambda W, x: W.fconv(W.fabs(x), 64))
contract('Math.Divide.f64', P, M + '6DivideEdd', 'f64', setup=f2, spec=lambda W, x, y: x / y)
contract('Math.FusedMultiplyAdd', P, M + '16FusedMultiplyAddEddd', 'f64', setup=f3, spec=lambda W, x, y, z: W.ffma(x, y, z))
contract('Math.Ceiling', P, M + '7CeilingEd', 'f64', setup=f1, spec=lambda W, x: W.fround(x, 'ceil'))
contract('Math.Floor', P, M + '5FloorEd', 'f64', setup=f1, spec=lambda W, x: W.fround(x, 'floor'))
contract('Math.Truncate', P, M + '8TruncateEd', 'f64', setup=f1, spec=lambda W, x: W.fround(x, 'trunc'))
contract('Math.Sqrt', P, M + '4SqrtEd', 'f64', setup=f1, spec=lambda W, x: W.fsqrt(x))
contract('Math.Round.1', P, M + '5RoundEd', 'f64', setup=f1, spec=lambda W, x: W.fround(x, 'even'), opts=bv, timeout=120)


def ordinal(W, x):
    """position of a non-NaN value on the scale of all doubles (both zeros at 0)"""
    b = W.fbits(x)
    m = b & (2 ** 63 - 1)
    return W.wd_if(b.slt(0), W.wd(0, 64) - m, m)


INFBITS = 0x7ff0000000000000


def step(d):
    def spec(W, x):
        if W.fnan(x):
            return x
        if W.fsame(x, W.fc(float('inf') * d)):
            return x
        k = ordinal(W, x) + d
        return AnyOf(lambda P, v: P.And(P.Not(P.fnan(v)), ordinal(P, v) == k))
    return spec


contract('Math.BitIncrement', P, M + '12BitIncrementEd', 'f64', setup=f1, spec=step(1), opts=bv)
contract('Math.BitDecrement', P, M + '12BitDecrementEd', 'f64', setup=f1, spec=step(-1), opts=bv)


def copysign(W, x, y):
    if W.fnan(y):
        s = W.wd(1 << 63, 64)
    else:
        s = W.fbits(y) & (1 << 63)
    return W.fromb((W.fbits(x) & (2 ** 63 - 1)) | s)


contract('Math.CopySign', P, M + '8CopySignEdd', 'f64', setup=f2, spec=copysign, opts=bv)
contract('Math.ExtractExponent', P, M + '23ExtractExponentFromBitsEm', 'i32', setup=lambda S: [S.int('b', 'u64')], spec=lambda W, b: ((W.wd(b, 64) >> 52) & 0x7ff).trunc(32), opts=bv)
contract('Math.ExtractSignificand', P, M + '26ExtractSignificandFromBitsEm', 'u64', setup=lambda S: [S.int('b', 'u64')], spec=lambda W, b: W.wd(b, 64) & (2 ** 52 - 1), opts=bv)


def ilogb(W, x):
    if W.fnan(x):
        return W.wd(2 ** 31 - 1, 32)
    b = W.fbits(x) & (2 ** 63 - 1)
    if b == INFBITS:
        return W.wd(2 ** 31 - 1, 32)
    if b == 0:
        return W.wd(-2 ** 31, 32)
    e = b >> 52
    if e == 0:
        r = W.wd(-1074, 32)
        for i in range(1, 52):
            r = W.wd_if(b.ule((1 << i) - 1), r, W.wd(i - 1074, 32))
        return r
    return e.trunc(32) - 1023


contract('Math.ILogB', P, M + '5ILogBEd', 'i32', setup=f1, spec=ilogb, opts=bv)


def mround(W, x, d, mode):
    if W.Or(d < 0, d > 15):
        W.throw('ArgumentOutOfRangeException')
    if W.Or(mode < 0, mode > 4):
        W.throw('ArgumentException')
    if W.Not(W.fabs(x) < 1e16):
        return x
    p = None
    for k in range(16):
        if d == k:
            p = W.fc(float(10 ** k))
            break
    v = x * p
    if mode == 0:
        v = W.fround(v, 'even')
    elif mode == 1:
        t = W.fround(v, 'trunc')
        f = v - t
        if W.fabs(f) >= 0.5:
            t = t + W.fif(f > 0, 1.0, W.fc(-1.0))
        v = t
    elif mode == 2:
        v = W.fround(v, 'trunc')
    elif mode == 3:
        v = W.fround(v, 'floor')
    else:
        v = W.fround(v, 'ceil')
    return v / p


for _m in (0, 1, 2, 3, 4, 9):
    def mkr(m):
        def setup(S):
            md = S.int('mode') if m == 9 else S.int('mode', 'i32', m, m)
            if m == 9:
                S.assume(S.Or(md < 0, md > 4))
            return [S.f64('x'), S.int('d'), md]
        contract('Math.Round.mode%d' % m, P, M + '5RoundEdiNS_16MidpointRoundingE', 'f64', setup=setup, spec=mround, uses=('Math.Round.1',), timeout=240, weight=5)
    mkr(_m)
contract('Math.Round.digits', P, M + '5RoundEdi', 'f64', setup=lambda S: [S.f64('x'), S.int('d')], spec=lambda W, x, d: mround(W, x, d, 0), uses=('Math.Round.1',), timeout=200)

for cls, ch, ty, w, one in (('DoubleValue', 'd', 'f64', 64, f1), ('SingleValue', 'f', 'f32', 32, g1)):
    def mk(cls, ch, ty, w, one):
        pre = '_ZN13DotnetLibrary%d%s' % (len(cls), cls)
        ex = 0x7ff0000000000000 if w == 64 else 0x7f800000
        mag = (1 << (w - 1)) - 1

        def reg(name, spec, **kw):
            contract('%s.%s' % (cls, name), P, pre + '%d%sE%s' % (len(name), name, ch), 'bool', setup=one, spec=spec, opts=bv, **kw)
        B_ = lambda W, x: W.fbits(x) & mag
        reg('IsFinite', lambda W, x: B_(W, x).ult(ex))
        reg('IsInfinity', lambda W, x: B_(W, x) == ex)
        reg('IsNaN', lambda W, x: W.Not(B_(W, x).ule(ex)))
        reg('IsNegative', lambda W, x: W.Or(W.fnan(x), W.fneg_sign(x)))
        reg('IsNegativeInfinity', lambda W, x: W.And(B_(W, x) == ex, W.fneg_sign(x)))
        reg('IsPositiveInfinity', lambda W, x: W.And(B_(W, x) == ex, W.Not(W.fneg_sign(x))))
        reg('IsNormal', lambda W, x: W.And(B_(W, x).ult(ex), W.Not(B_(W, x).ult(1 << (52 if w == 64 else 23)))))
        reg('IsSubnormal', lambda W, x: W.And(W.Not(B_(W, x) == 0), B_(W, x).ult(1 << (52 if w == 64 else 23))))
    mk(cls, ch, ty, w, one)

for nm in ('Acos', 'Acosh', 'Asin', 'Asinh', 'Atan', 'Atanh', 'Cbrt', 'Cos', 'Cosh', 'Exp', 'Log', 'Log10', 'Log2', 'Sin', 'Sinh', 'Tan', 'Tanh'):
    def mk3(nm):
        contract('Math.' + nm, P, M + '%d%sEd' % (len(nm), nm), 'f64', setup=f1, spec=lambda W, x: W.fuf(nm.lower(), x), search=200)
    mk3(nm)
for nm, m in (('Atan2', 'atan2'), ('Pow', 'pow'), ('IEEERemainder', 'remainder')):
    def mk4(nm, m):
        contract('Math.' + nm, P, M + '%d%sEdd' % (len(nm), nm), 'f64', setup=f2, spec=lambda W, x, y: W.fuf(m, x, y), search=200)
    mk4(nm, m)


def logbase(W, a, b):
    if W.fnan(a):
        return a
    if W.fnan(b):
        return b
    if W.feq(b, 1.0):
        return W.fc(float('nan'))
    if W.And(W.Not(W.feq(a, 1.0)), W.Or(W.feq(b, 0.0), W.feq(b, float('inf')))):
        return W.fc(float('nan'))
    return W.fuf('log', a) / W.fuf('log', b)


contract('Math.LogBase', P, M + '3LogEdd', 'f64', setup=f2, spec=logbase, search=500)


contract('Math.ScaleB', P, M + '6ScaleBEdi', 'f64', setup=lambda S: [S.f64('x'), S.int('n')], spec=lambda W, x, n: W.fscale(x, n), search=500)

contract('DoubleValue.Modulus', P, '_ZN13DotnetLibrary11DoubleValue7ModulusEdd', 'f64', setup=f2, spec=lambda W, x, y: W.fuf('fmod', x, y), search=200)
contract('SingleValue.Modulus', P, '_ZN13DotnetLibrary11SingleValue7ModulusEff', 'f32', setup=g2, spec=lambda W, x, y: W.fuf('fmodf', x, y), search=200)
