"""Typed element store and load."""
from engine.verify import contract
from .kinds import *
from .p01_array import A, DTN, index, shape, single

P = 'P02'
PRIM = ['Boolean', 'Char'] + INTS + ['Single', 'Double', 'DateTime', 'TimeSpan']
BOXES = ['Boolean', 'Char', 'SByte', 'Int32', 'UInt32', 'Int64', 'UInt64', 'Single', 'Double', 'DateTime', 'TimeSpan']


def anybox(S, dt):
    """a boxed value to store into an array of dt (floating boxes only where the conversion is defined)"""
    B = S.choose('box', BOXES if dt in BOXES else [dt] + BOXES)
    v = val(S, 'v', B)
    if B in ('Single', 'Double') and dt in INTS and castable(B, dt):
        fits(S, B, dt, v)
    if B in ('Single', 'Double') and dt in INTS and dt not in ('Int32', 'UInt32', 'Int64'):
        S.assume(False)
    return box(S, 'b', B, v)


def boxtype(W, p):
    n = W.vtable_of(p)
    return next((B for B in BOXCLS if n == '_ZTVN13DotnetLibrary%d%sE' % (len(BOXCLS[B]), BOXCLS[B])), None)


def stored(W, dt, o):
    """the element value that storing the object o leaves"""
    if dt in ('Object', 'String'):
        return o
    B = boxtype(W, o)
    if dt == 'Decimal' or B is None:
        W.throw('InvalidCastException')
    v = W.ld(o, 8, BTY[B])
    if B == 'Boolean':
        v = v != 0
    r = convert(W, B, dt, v)
    return r


def store(W, a, i, j, k, o):
    if W.is_null(o):
        W.throw('ArgumentNullException')
    dt = DTN[W.ld(a, 8, 'i32')]
    idx = index(W, a, i, j, k)
    v = stored(W, dt, o)
    if dt == 'Boolean':
        v = W.If(v, 1, 0)
    W.set_region(adata(W, a), BTY[dt], idx, 1, lambda q: v)


def load(W, a, i, j, k):
    dt = DTN[W.ld(a, 8, 'i32')]
    idx = index(W, a, i, j, k)
    if dt == 'Decimal':
        W.throw('InvalidCastException')
    v = W.elem(adata(W, a), BTY[dt], idx)
    if dt in ('Object', 'String'):
        return v
    return newbox(dt, v)


for dt in PRIM + ['Object', 'String', 'Decimal']:
    def mk(dt):
        kw = dict(hi=1, lo=0) if dt == 'Boolean' else {}

        def arr(S):
            return array(S, 'a', dt, S.choose('rank', [1, 2, 3]), **kw)

        def s_set(S):
            a = arr(S)
            o = S.null() if S.choose('null', [0, 1]) else anybox(S, dt) if dt not in ('Object', 'String', 'Decimal') else box(S, 'b', S.choose('box', ['Int32', 'Double']))
            return [a, o, S.int('i1'), S.int('i2'), S.int('i3')]

        def s_get(S):
            return [arr(S), S.int('i1'), S.int('i2'), S.int('i3')]
        contract('Array.SetValue.' + dt, P, A + '8SetValueEPNS_6ObjectEiii', 'void', setup=s_set, spec=lambda W, a, o, i, j, k: store(W, a, i, j, k, o), weight=4)
        contract('Array.GetValue.' + dt, P, A + '8GetValueEiii', 'ptr', setup=s_get, spec=load, weight=2)
    mk(dt)


def idxarr(S):
    if S.choose('noidx', [0, 1]):
        return S.null()
    R = S.choose('irank', [1, 2])
    return array(S, 'ix', 'Int32', R)


def indexes(W, x):
    """the three indexes held by an index array; None: it is empty"""
    if W.is_null(x):
        W.throw('ArgumentNullException')
    single(W, x)
    n = alen(W, x)
    if n > 3:
        W.throw('NotImplementedException')
    if n == 0:
        return None
    rd = W.reader(adata(W, x), 'i32')
    return [rd(0), rd(1) if n > 1 else -1, rd(2) if n > 2 else -1]


@contract('Array.SetValue.indexes', P, A + '8SetValueEPNS_6ObjectEPS0_', 'void', weight=4)
class _:
    def setup(S):
        a = array(S, 'a', S.choose('dt', ['Int32', 'Byte']), S.choose('rank', [1, 2, 3]))
        return [a, S.null() if S.choose('null', [0, 1]) else box(S, 'b', 'Int32'), idxarr(S)]

    def spec(W, a, o, x):
        ix = indexes(W, x)
        if ix is not None:
            store(W, a, ix[0], ix[1], ix[2], o)


@contract('Array.GetValue.indexes', P, A + '8GetValueEPS0_', 'ptr', weight=4)
class _:
    def setup(S):
        a = array(S, 'a', S.choose('dt', ['Int32', 'Byte']), S.choose('rank', [1, 2, 3]))
        return [a, idxarr(S)]

    def spec(W, a, x):
        ix = indexes(W, x)
        if ix is None:
            return W.null()
        return load(W, a, ix[0], ix[1], ix[2])
