"""Integer mathematics."""
from engine.verify import contract
from .kinds import *

P = 'P11'
M = '_ZN13DotnetLibrary4Math'
CH = {'i8': 'a', 'u8': 'h', 'i16': 's', 'u16': 't', 'i32': 'i', 'u32': 'j', 'i64': 'l', 'u64': 'm'}
from engine.terms import BV
w_ = lambda ty: int(ty[1:])
SIGNED = ['i8', 'i16', 'i32', 'i64']


def two(ty):
    return lambda S: [S.int('a', ty), S.int('b', ty)]


for ty, ch in CH.items():
    def mk(ty, ch):
        contract('Math.Max.' + ty, P, M + '3MaxE' + ch * 2, ty, setup=two(ty), spec=lambda W, a, b: W.max(a, b))
        contract('Math.Min.' + ty, P, M + '3MinE' + ch * 2, ty, setup=two(ty), spec=lambda W, a, b: W.min(a, b))

        def clamp(W, v, lo, hi):
            if lo > hi:
                W.throw('ThrowMinMaxException')
            return W.If(v < lo, lo, W.If(v > hi, hi, v))
        contract('Math.Clamp.' + ty, P, M + '5ClampE' + ch * 3, ty, setup=lambda S: [S.int('v', ty), S.int('lo', ty), S.int('hi', ty)], spec=clamp)
        if ty in SIGNED:
            contract('Math.Sign.' + ty, P, M + '4SignE' + ch, 'i32', setup=lambda S: [S.int('v', ty)], spec=lambda W, v: W.If(v > 0, 1, W.If(v < 0, -1, 0)))
            contract('Math.Abs.' + ty, P, M + '3AbsE' + ch, 'f64', setup=lambda S: [S.int('v', ty)], spec=lambda W, v: W.fabs((W.wd(v, w_(ty)) if w_(ty) >= 32 else W.wd(v, w_(ty)).sext(32)).tof()), opts={'dom': BV})
    mk(ty, ch)

contract('Math.BigMul', P, M + '6BigMulEii', 'i64', setup=two('i32'), spec=lambda W, a, b: a * b)


def divspec(w):
    def spec(W, a, b, r=None):
        if b == 0:
            W.throw('DivideByZeroException')
        if W.And(a == -2 ** (w - 1), b == -1):
            W.throw('OverflowException')
        q = W.tdiv(a, b)
        if r is not None:
            W.st_(r, 0, 'i%d' % w, a - q * b)
        return q
    return spec


contract('Math.Divide.i64', P, M + '6DivideEll', 'i64', setup=two('i64'), spec=divspec(64))
for w, ch in ((32, 'i'), (64, 'l')):
    def mk2(w, ch):
        def setup(S):
            r = S.obj(w // 8, 'remainder')
            return [S.int('a', 'i%d' % w), S.int('b', 'i%d' % w), r]
        contract('Math.DivRem.i%d' % w, P, M + '6DivRemE%s%sR%s' % (ch, ch, ch), 'i%d' % w, setup=setup, spec=divspec(w))
    mk2(w, ch)
