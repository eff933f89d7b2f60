"""Array shape, bounds and addressing; construction."""
from engine.verify import contract
from .kinds import *

A = '_ZN13DotnetLibrary5Array'
ALLDT = [d for d in DT if d != 'Null']
DTN = {v: k for k, v in DT.items()}


def shape(W, a):
    r = W.ld(a, 24, 'i32')
    return r, [W.ld(a, 12 + 4 * i, 'i32') for i in range(3)]


def index(W, a, i, j, k):
    """row-major index of an element, or IndexOutOfRangeException"""
    r, d = shape(W, a)
    ok = W.And(i >= 0, i < d[0])
    for n, x in ((2, j), (3, k)):
        ok = W.And(ok, x >= 0, x < d[n - 1]) if r >= n else W.And(ok, x < 0)
    if not ok:
        W.throw('IndexOutOfRangeException')
    idx = i
    if r >= 2:
        idx = idx * d[1] + j
    if r >= 3:
        idx = idx * d[2] + k
    return idx


def esize(W, a):
    return TYSIZE[ETY[DTN[W.ld(a, 8, 'i32')]]]


for R in (1, 2, 3):
    def mk(R):
        def setup(S):
            a = array(S, 'a', S.choose('dt', ALLDT), R)
            return [a, S.int('i1'), S.int('i2'), S.int('i3')]

        def spec(W, a, i, j, k):
            return at(W, adata(W, a), index(W, a, i, j, k) * esize(W, a))
        contract('Array.Address.%d' % R, 'P01', A + '7AddressEiii', 'ptr', setup=setup, spec=spec, weight=3)
    mk(R)


def anyarr(S):
    return array(S, 'a', S.choose('dt', ['Int32', 'String', 'Byte']), S.choose('rank', [1, 2, 3]))


def getlen(f):
    def setup(S):
        a = anyarr(S)
        return [a, S.int('d')]

    def spec(W, a, d):
        r, ds = shape(W, a)
        if W.Or(d < 0, d >= r):
            W.throw('IndexOutOfRangeException')
        if d == 0:
            return f(ds[0])
        if d == 1:
            return f(ds[1])
        return f(ds[2])
    return dict(setup=setup, spec=spec)


contract('Array.GetLength', 'P01', A + '9GetLengthEi', 'i32', **getlen(lambda x: x))
contract('Array.GetLowerBound', 'P01', A + '13GetLowerBoundEi', 'i32', **getlen(lambda x: 0))
contract('Array.GetUpperBound', 'P01', A + '13GetUpperBoundEi', 'i32', **getlen(lambda x: x - 1))
contract('Array.get_Length', 'P01', A + '10get_LengthEv', 'i32', setup=lambda S: [anyarr(S)], spec=lambda W, a: W.ld(a, 28, 'i32'))
contract('Array.get_Rank', 'P01', A + '8get_RankEv', 'i32', setup=lambda S: [anyarr(S)], spec=lambda W, a: W.ld(a, 24, 'i32'))
contract('Array.GetElementType', 'P01', A + '14GetElementTypeEv', 'i32', setup=lambda S: [anyarr(S)], spec=lambda W, a: W.ld(a, 8, 'i32'))


def single(W, a):
    if W.ld(a, 24, 'i32') != 1:
        W.throw('RankException')


contract('Array.EnsureSingleDimension', 'P01', A + '21EnsureSingleDimensionEv', 'void', setup=lambda S: [anyarr(S)], spec=single)


def ctor(mem):
    def setup(S):
        R = S.choose('rank', [1, 2, 3])
        dt = S.choose('dt', ALLDT)
        w = TYSIZE[ETY[dt]]
        ds = [S.int('d%d' % (i + 1), size=mem) if i < R else -1 for i in range(3)]
        for d in ds[1:R]:
            S.assume(d != -1)                            # -1 means: no such dimension
        p = S.obj(48, 'this')
        if mem:
            for d in ds[:R]:
                S.assume(d >= 0)
            n = product(S, ds, R)
            S.assume(n <= (2 ** 31 - 1) // w)
            return [p, S.buf('data', ETY[dt], n), DT[dt]] + ds
        return [p, DT[dt]] + ds

    def product(S, ds, R):
        n = ds[0]
        for d in ds[1:R]:
            n = n * d
        return n

    def spec(W, p, *a):
        data = None
        if mem:
            data, a = a[0], a[1:]
        dt, ds = a[0], list(a[1:])
        R = 1 + sum(1 for d in ds[1:] if not (isinstance(d, int) and d == -1))
        w = TYSIZE[ETY[DTN[dt]]]
        n = product(W, ds, R)
        if not mem:
            ok = W.And(*[d >= 0 for d in ds[:R]])
            if not ok:
                W.hidden.add(p.b)
                W.throw('OverflowException')

            if n > (2 ** 31 - 1) // w:
                W.hidden.add(p.b)
                W.throw('OverflowException')
            ety = ETY[DTN[dt]]
            W.small(n)
            zero = W.fc(0.0, 8 * w) if ety[0] == 'f' else 0 if ety != 'ptr' else (Ptr(0, 0) if W.symbolic else CNULL)
            W.builds(p, NewArr(dt, ds, R, n, w, ety, lambda k: zero))
            return
        W.st_(p, 0, 'ptr', Ptr(W.ctx.glob_id('_ZTVN13DotnetLibrary5ArrayE'), 16)) if W.symbolic else vtable(W, p)
        for o, v in ((8, dt), (12, ds[0]), (16, ds[1]), (20, ds[2]), (24, R), (28, n)):
            W.st_(p, o, 'i32', v)
        W.st_(p, 32, 'ptr', data)
        W.st_(p, 40, 'u8', 0)                             # the memory is not the array's

    def vtable(W, p):
        W.mem[p.b].rel[p.off] = ('s', '_ZTVN13DotnetLibrary5ArrayE', 16)
    return dict(setup=setup, spec=spec)


@contract('Array.dtor', 'P01', A + 'D2Ev', 'void')
class _:
    def setup(S):
        p = array(S, 'this', S.choose('dt', ['Byte', 'Int32', 'Double', 'Object']), S.choose('rank', [1, 2, 3]))
        S.set(p, 40, 'u8', S.choose('owned', [0, 1]))
        return [p]

    def spec(W, p):
        d = W.ld(p, 32, 'ptr')
        W.hidden.add(p.b)
        if W.ld(p, 40, 'u8'):
            W.free(d)


contract('Array.ctor', 'P01', A + 'C2ENS_8DataTypeEiii', 'void', weight=5, timeout=240, **ctor(False))
contract('Array.ctor.memory', 'P01', A + 'C2EPvNS_8DataTypeEiii', 'void', weight=5, timeout=240, **ctor(True))
