"""Byte-level access to primitive arrays."""
from engine.verify import contract
from .kinds import *
from .p01_array import DTN, single

P = 'P04'
BF = '_ZN13DotnetLibrary6Buffer'
PRIMS = ['Boolean', 'Char', 'SByte', 'Byte', 'Int16', 'UInt32', 'Int64', 'Single', 'Double', 'DateTime']


def barray(S, name, dt, rank=1):
    """a well-formed array whose elements are given as bytes"""
    w = TYSIZE[ETY[dt]]
    ds = [S.int('%s.d%d' % (name, i + 1), 'i32', 0, (2 ** 31 - 1) // w if rank == 1 else 2 ** 31 - 1, size=True) for i in range(rank)]
    tot = ds[0]
    for d in ds[1:]:
        tot = tot * d
    if rank > 1:
        S.assume(tot <= (2 ** 31 - 1) // w)
    p = S.obj(48, name, 'Array')
    S.set(p, 8, 'i32', DT[dt])
    for i in range(3):
        S.set(p, 12 + 4 * i, 'i32', ds[i] if i < rank else -1)
    S.set(p, 24, 'i32', rank)
    S.set(p, 28, 'i32', tot)
    S.set(p, 32, 'ptr', S.buf('a_' + name, 'u8', tot * w))
    S.set(p, 40, 'u8', 1)
    return p


def anyarray(S, name='a'):
    """null, not primitive, two-dimensional, or a byte view of a primitive array"""
    k = S.choose('kind_' + name, ['prim', 'null', 'obj', '2d'])
    if k == 'null':
        return S.null()
    if k == 'obj':
        return array(S, name, S.choose('dt_' + name, ['Object', 'String']), S.choose('rank_' + name, [1, 2]))
    if k == '2d':
        return barray(S, name, 'Int16', 2)
    return barray(S, name, S.choose('dt_' + name, PRIMS))


def prim(W, a):
    if DTN[W.ld(a, 8, 'i32')] in ('Object', 'String', 'Null'):
        W.throw('ArgumentException')


def bytelen(W, a):
    if W.is_null(a):
        W.throw('ArgumentNullException')
    prim(W, a)
    single(W, a)
    return alen(W, a) * TYSIZE[ETY[DTN[W.ld(a, 8, 'i32')]]]


contract('Buffer.ByteLength', P, BF + '10ByteLengthEPNS_5ArrayE', 'i32', setup=lambda S: [anyarray(S)], spec=bytelen)


@contract('Buffer.GetByte', P, BF + '7GetByteEPNS_5ArrayEi', 'u8')
class _:
    def setup(S):
        return [anyarray(S), S.int('i')]

    def spec(W, a, i):
        n = bytelen(W, a)
        if W.Or(i < 0, i >= n):
            W.throw('ArgumentOutOfRangeException')
        return W.elem(adata(W, a), 'u8', i)


@contract('Buffer.SetByte', P, BF + '7SetByteEPNS_5ArrayEih', 'void')
class _:
    def setup(S):
        return [anyarray(S), S.int('i'), S.int('v', 'u8')]

    def spec(W, a, i, v):
        n = bytelen(W, a)
        if W.Or(i < 0, i >= n):
            W.throw('ArgumentOutOfRangeException')
        W.set_region(adata(W, a), 'u8', i, 1, lambda k: v)


@contract('Buffer.BlockCopy', P, BF + '9BlockCopyEPNS_5ArrayEiS2_ii', 'void', weight=4)
class _:
    def setup(S):
        k = S.choose('pair', ['two', 'same', 'first', 'second'])
        if k == 'same':
            a = b = barray(S, 'a', S.choose('dt_a', ['Byte', 'Int32', 'Double']))
        elif k == 'two':
            a, b = barray(S, 'a', S.choose('dt_a', ['Byte', 'Int16', 'Double'])), barray(S, 'b', S.choose('dt_b', ['Byte', 'Char', 'Int64']))
        elif k == 'first':
            a, b = anyarray(S, 'a'), barray(S, 'b', 'Byte')
        else:
            a, b = barray(S, 'a', 'Int16'), anyarray(S, 'b')
        return [a, S.int('i'), b, S.int('j'), S.int('n')]

    def spec(W, a, i, b, j, n):
        if W.is_null(a):
            W.throw('ArgumentNullException')
        if W.is_null(b):
            W.throw('ArgumentNullException')
        single(W, a)
        single(W, b)
        prim(W, a)
        prim(W, b)
        if W.Or(i < 0, j < 0, n < 0):
            W.throw('ArgumentOutOfRangeException')
        if W.Or(i + n > bytelen(W, a), j + n > bytelen(W, b)):
            W.throw('ArgumentException')
        rd = W.reader(adata(W, a), 'u8')
        W.set_region(adata(W, b), 'u8', j, n, lambda k: rd(k - j + i))
