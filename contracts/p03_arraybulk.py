"""Copying, clearing, initialising and searching arrays."""
from engine.verify import contract
from .kinds import *
from .p01_array import A, DTN, shape, single, DT
from .p13_strsearch import equal_obj

P = 'P03'


def maybe_arr(S, name, dt, rank):
    return S.null() if S.choose('null_' + name, [0, 1]) else array(S, name, dt, rank)


def copy(W, a, i, b, j, n):
    if W.is_null(a):
        W.throw('ArgumentNullException')
    if W.is_null(b):
        W.throw('ArgumentNullException')
    if n < 0:
        W.throw('ArgumentOutOfRangeException')
    if W.Or(i < 0, j < 0, i > alen(W, a) - n, j > alen(W, b) - n):
        W.throw('ArgumentException')
    if W.ld(a, 24, 'i32') != W.ld(b, 24, 'i32'):
        W.throw('RankException')
    if W.ld(a, 8, 'i32') != W.ld(b, 8, 'i32'):
        W.throw('NotImplementedException')
    ty = ETY[DTN[W.ld(a, 8, 'i32')]]
    rd = W.reader(adata(W, a), ty)                      # the contents before the call
    W.set_region(adata(W, b), ty, j, n, lambda k: rd(k - j + i))


def pairs(S):
    """source and destination: two arrays, the same array, arrays that cannot be copied, nulls"""
    k = S.choose('pair', ['two', 'same', 'rank', 'type', 'nulls'])
    if k in ('two', 'same'):
        dt = S.choose('dt', ['Byte', 'Char', 'UInt16', 'Int64', 'Double', 'String'])
        r = S.choose('rank', [1, 2, 3]) if dt in ('Byte', 'Int64') else 1
        a = array(S, 'a', dt, r)
        return a, (a if k == 'same' else array(S, 'b', dt, r))
    if k == 'rank':
        return array(S, 'a', 'Int32', 1), array(S, 'b', 'Int32', 2)
    if k == 'type':
        return array(S, 'a', 'Int32', 1), array(S, 'b', S.choose('dt2', ['UInt32', 'Byte', 'Object']), 1)
    n = S.choose('which', [1, 2, 3])
    return (S.null() if n & 1 else array(S, 'a', 'Int32', 1)), (S.null() if n & 2 else array(S, 'b', 'Int32', 1))


def s5(S):
    a, b = pairs(S)
    return [a, S.int('i'), b, S.int('j'), S.int('n')]


def s3(S):
    a, b = pairs(S)
    return [a, b, S.int('n')]


contract('Array.Copy', P, A + '4CopyEPS0_iS1_ii', 'void', setup=s5, spec=copy, weight=6)
contract('Array.ConstrainedCopy', P, A + '15ConstrainedCopyEPS0_iS1_ii', 'void', setup=s5, spec=copy, weight=6)
contract('Array.Copy3', P, A + '4CopyEPS0_S1_i', 'void', setup=s3, spec=lambda W, a, b, n: copy(W, a, 0, b, 0, n), weight=6)


def verify_range(W, a, i, n):
    if W.is_null(a):
        W.throw('ArgumentNullException')
    single(W, a)
    if W.Or(n < 0, i < 0):
        W.throw('ArgumentOutOfRangeException')
    if i > W.ld(a, 12, 'i32') - n:
        W.throw('ArgumentException')


def one(S):
    if S.choose('null', [0, 1]):
        return S.null()
    return array(S, 'a', S.choose('dt', ['Byte', 'Int16', 'Int32', 'Double', 'String']), S.choose('rank', [1, 2, 3]))


contract('Array.VerifyIndexWithinRangeOfArray', P, A + '29VerifyIndexWithinRangeOfArrayEPS0_ii', 'void', setup=lambda S: [one(S), S.int('i'), S.int('n')], spec=verify_range, optional=True)


@contract('Array.Clear', P, A + '5ClearEPS0_ii', 'void', weight=4)
class _:
    def setup(S):
        return [one(S), S.int('i'), S.int('n')]

    def spec(W, a, i, n):
        verify_range(W, a, i, n)
        ty = ETY[DTN[W.ld(a, 8, 'i32')]]
        z = W.fc(0.0, int(ty[1:])) if ty[0] == 'f' else W.null() if ty == 'ptr' else 0
        W.set_region(adata(W, a), ty, i, n, lambda k: z)


@contract('Array.CopyTo', P, A + '6CopyToEPS0_i', 'void', weight=6)
class _:
    def setup(S):
        a, b = pairs(S)
        S.assume(not S.is_null(a))
        return [a, b, S.int('j')]

    def spec(W, a, b, j):
        if W.is_null(b):
            W.throw('ArgumentNullException')
        single(W, b)
        n = alen(W, a)
        verify_range(W, b, j, n)
        copy(W, a, 0, b, j, W.ld(a, 12, 'i32'))


@contract('Array.Initialize', P, A + '10InitializeEPv', 'ptr', weight=3)
class _:
    def setup(S):
        dt = S.choose('dt', ['Byte', 'Int16', 'Int32', 'Double', 'Int64'])
        a = array(S, 'a', dt, S.choose('rank', [1, 2, 3]))
        return [a, S.buf('init', ETY[dt], alen(S, a))]

    def spec(W, a, d):
        ty = ETY[DTN[W.ld(a, 8, 'i32')]]
        rd = W.reader(d, ty)
        W.set_region(adata(W, a), ty, 0, alen(W, a), rd)
        return a



# ---- searching: arrays of at most three objects, strings of any length ----------------------------------------------------
def element(S, name, k):
    return S.null() if k == 'null' else string(S, name) if k == 'string' else box(S, name, 'Int32')


def same(W, o, v):
    """o.Equals(v)"""
    if W.is_null(v) or class_of(W, o) != class_of(W, v):
        return False
    if class_of(W, o) == 'String':
        n, a, b = slen(W, o), sch(W, o), sch(W, v)
        return n == slen(W, v) and W.first(0, n, lambda k: a(k) != b(k)) is None
    return W.ld(o, 8, 'i32') == W.ld(v, 8, 'i32')


@contract('Array.IndexOf', P, '_ZN13DotnetLibrary5Array7IndexOfEPS0_PNS_6ObjectEii', 'i32', uses=['String.Equals.obj'], opts={'unroll_all': True, 'symbolic': True},
          bounded='arrays of at most three elements, each null, a string of any length or a boxed Int32')
class _:
    def setup(S):
        kind = S.choose('value', ['null', 'string', 'Int32'])
        shapes = [(c,) + s for c in ('null', 'string', 'Int32') for s in [()] + [(d,) for d in ('null', 'string', 'Int32')]] + [(), (kind, kind, kind), ('null', kind, kind), ('Int32', 'string', kind)]
        shape = S.choose('elements', list(range(len(shapes))))
        items = [element(S, 'e%d' % i, k) for i, k in enumerate(shapes[shape])]
        n = len(items)
        start = S.choose('start', list(range(n + 1)))
        mode = S.choose('count', list(range(-1, n - start + 1)) + ['bad'])
        if mode == 'bad':
            start, count = S.int('from'), S.int('amount')
            S.assume(start < 0 or start > n or count > n - start)
        else:
            count = mode
        dt = S.choose('type', ['Object', 'String'] if n == 2 and mode == -1 else ['Object', 'Int32'] if n == 3 and mode == -1 else ['Object'])
        return [objects(S, 'a', items, dt), element(S, 'v', kind), start, count]

    def spec(W, a, v, start, count):
        n = alen(W, a)
        if count < 0:
            count = W.wrap(32, n - start)
        if start < 0 or start > n or count < 0 or count > n - start:
            W.throw('ArgumentOutOfRangeException')
        if W.ld(a, 8, 'i32') == DT['Int32']:
            W.throw('NotImplementedException')
        d = adata(W, a)
        for i in range(start, start + count):
            o = W.ld(d, 8 * i, 'ptr')
            if (W.is_null(v) if W.is_null(o) else same(W, o, v)):
                return i
        return -1
