"""Conversions between values and bytes."""
from engine.verify import contract
from .kinds import *
from .p01_array import DTN, single
from .p04_buffer import barray

P = 'P05'
BC = '_ZN13DotnetLibrary12BitConverter'
CODE = {'Boolean': 'b', 'Char': 'w', 'Double': 'd', 'Int16': 's', 'Int32': 'i', 'Int64': 'l', 'Single': 'f', 'UInt16': 't', 'UInt32': 'j', 'UInt64': 'm'}
WIDTH = {'Boolean': 1, 'Char': 2, 'Double': 8, 'Int16': 2, 'Int32': 4, 'Int64': 8, 'Single': 4, 'UInt16': 2, 'UInt32': 4, 'UInt64': 8}


def bytesof(n, byte):
    return NewArr(DT['Byte'], [n, -1, -1], 1, n, 1, 'u8', byte)


def number(W, dt, v):
    """the bit pattern of v as an unsigned number of the converted width"""
    if dt == 'Boolean':
        return W.If(v, 1, 0)
    if dt in ('Double', 'Single'):
        return W.bits(v)
    return W.wrap(8 * WIDTH[dt], v)


def getbytes(dt):
    def spec(W, v):
        x = number(W, dt, v)
        parts = [x // 256 ** k % 256 for k in range(WIDTH[dt])]
        return bytesof(WIDTH[dt], lambda k: parts[k])
    contract('BitConverter.GetBytes_' + dt, P, BC + '8GetBytesE' + CODE[dt], 'ptr', setup=lambda S: [val(S, 'v', dt)], spec=spec)


for dt in CODE:
    getbytes(dt)


@contract('BitConverter.GetBytes_raw', P, BC + '8GetBytesEPhi', 'ptr')
class _:
    def setup(S):
        n = S.int('n', 'i32', 1, 2 ** 31 - 1, size=True)
        m = S.int('m', 'i32', 1, 2 ** 31 - 1, size=True)
        S.assume(n <= m)
        return [S.buf('src', 'u8', m), n]

    def spec(W, p, n):
        rd = W.reader(p, 'u8')
        return bytesof(n, rd)


def source(S):
    return S.null() if S.choose('null', [False, True]) else barray(S, 'a', 'Byte')


def start(W, a, i, n):
    if W.is_null(a):
        W.throw('ArgumentNullException')
    ln = alen(W, a)
    if W.Or(i < 0, i > ln - 1):
        W.throw('ArgumentOutOfRangeException')
    if i + n > ln:
        W.throw('ArgumentException')
    return W.reader(adata(W, a), 'u8')


def tovalue(dt):
    n = WIDTH[dt]

    def spec(W, a, i):
        rd = start(W, a, i, n)
        if dt == 'Boolean':
            return rd(i) != 0
        # little endian, the last byte carries the sign
        x = W.wrap(8, rd(i + n - 1)) * 256 ** (n - 1)
        for k in range(n - 1):
            x = rd(i + k) * 256 ** k + x
        if dt in ('Single', 'Double'):
            return W.ofbits(x, 8 * n)
        return x if ETY[dt][0] == 'i' and dt != 'Char' else W.unsigned(8 * n, x)
    nm = {'Boolean': '9ToBoolean', 'Char': '6ToChar', 'Double': '8ToDouble', 'Single': '8ToSingle'}.get(dt) or '%dTo%s' % (len(dt) + 2, dt)
    contract('BitConverter.To' + dt, P, BC + nm + 'EPNS_5ArrayEi', {'Boolean': 'bool'}.get(dt, ETY[dt]), setup=lambda S: [source(S), S.int('i')], spec=spec)


for dt in CODE:
    tovalue(dt)


@contract('BitConverter.PutBytes', P, BC + '8PutBytesEPhPNS_5ArrayEii', 'void')
class _:
    def setup(S):
        n = S.int('n', 'i32', 0, 2 ** 31 - 1, size=True)
        return [S.buf('dst', 'u8', n), source(S), S.int('i'), n]

    def spec(W, d, a, i, n):
        rd = start(W, a, i, n)
        W.set_region(d, 'u8', 0, n, lambda k: rd(k + i))


contract('BitConverter.DoubleToInt64Bits', P, BC + '17DoubleToInt64BitsEd', 'i64', setup=lambda S: [S.f64('v')], spec=lambda W, v: W.wrap(64, W.bits(v)))
contract('Single.ToSingle', P, '_ZN13DotnetLibrary11SingleValue8ToSingleEj', 'f32', setup=lambda S: [S.int('v', 'u32')], spec=lambda W, v: W.ofbits(v, 32))
contract('BitConverter.Int64BitsToDouble', P, BC + '17Int64BitsToDoubleEl', 'f64', setup=lambda S: [S.int('v', 'i64')], spec=lambda W, v: W.ofbits(v, 64))


def hexdigit(W, x):
    return W.If(x < 10, x + 48, x + 55)


def hexchar(W, rd, i):
    def ch(k):
        b = rd(i + k // 3)
        m = k % 3
        return W.If(m == 2, 45, hexdigit(W, W.If(m == 0, b // 16, b % 16)))
    return ch


def written(W, b):
    """while writing: the text so far is a prefix of the whole text"""
    a, i, n = W.args
    ch = hexchar(W, W.reader(adata(W, a), 'u8'), i)
    return (lambda k, L: ch(k)), lambda t: W.If(t == 0, 0, 3 * t - 1)


@contract('BitConverter.ToString', P, BC + '8ToStringEPNS_5ArrayEii', 'ptr', weight=3, uses=['SB.Append.repeat'], opts={'loop_builder': written})
class _:
    def setup(S):
        # the text of more than 715827882 bytes is longer than any string
        return [source(S), S.int('i'), S.int('n', 'i32', -2 ** 31, 178956970)]

    def spec(W, a, i, n):
        if W.is_null(a):
            W.throw('ArgumentNullException')
        ln = alen(W, a)
        if W.And(i == 0, ln == 0):
            return NewStr(0, lambda k: 0)
        if W.Or(i < 0, i >= ln):
            W.throw('ArgumentOutOfRangeException')
        if n == -1:
            n = ln - i
            W.assume(n <= 178956970)
        if n < 0:
            W.throw('ArgumentOutOfRangeException')
        if i + n > ln:
            W.throw('ArgumentException')
        if n == 0:
            return NewStr(0, lambda k: 0)
        rd = W.reader(adata(W, a), 'u8')
        return NewStr(3 * n - 1, hexchar(W, rd, i))
