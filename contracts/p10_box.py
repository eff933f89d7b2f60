"""Boxed primitive values: conversions, comparison, equality."""
from engine.verify import contract
from engine.terms import BV
from .kinds import *

P = 'P10'
N = '_ZN13DotnetLibrary'
PRIM = ['Boolean', 'Char'] + INTS + ['Single', 'Double']
CH = {'Boolean': 'b', 'Char': 'w', 'SByte': 'a', 'Byte': 'h', 'Int16': 's', 'UInt16': 't', 'Int32': 'i', 'UInt32': 'j', 'Int64': 'l', 'UInt64': 'm', 'Single': 'f', 'Double': 'd', 'DateTime': None,
      'TimeSpan': None}
RET = dict(ETY, Boolean='bool')


def cls(B):
    return '%s%d%s' % (N, len(BOXCLS[B]), BOXCLS[B])


def value(W, p, B):
    v = W.ld(p, 8, BTY[B])
    return v != 0 if B == 'Boolean' else v


for B in PRIM:
    for T in PRIM:
        def mk(B, T):
            fl = B in ('Single', 'Double')

            def setup(S):
                v = val(S, 'v', B)
                if fl and T in INTS and castable(B, T):
                    fits(S, B, T, v)
                return [box(S, 'b', B, v)]
            own = castable(B, T)
            name = 'get_As%s' % T
            fn = '%s%d%sEv' % (cls(B) if own else N + '6Object', len(name), name)
            contract('%s.as%s' % (B, T), P, fn, RET[T], setup=setup, spec=lambda W, p: convert(W, B, T, value(W, p, B)), opts={'dom': BV} if fl and T in INTS else {}, search=300)
        if castable(B, T):
            mk(B, T)


# what a box does not convert to: the inherited conversions, through the virtual table
def virt(S):
    return [box(S, 'b', S.choose('B', PRIM + ['DateTime', 'TimeSpan']))]


for T in PRIM + ['DateTime', 'TimeSpan']:
    def mk(T):
        name = 'get_As%s' % T

        def spec(W, p):
            W.throw('InvalidCastException')
        if T in ('DateTime', 'TimeSpan'):
            def spec2(W, out, p):
                W.throw('InvalidCastException')
            contract('Object.as' + T, P, '%s6Object%d%sEv' % (N, len(name), name), 'void', setup=lambda S: [S.obj(8, 'out')] + virt(S), spec=spec2, search=50)
        else:
            contract('Object.as' + T, P, '%s6Object%d%sEv' % (N, len(name), name), RET[T], setup=virt, spec=spec, search=50)
    mk(T)


# ---- comparison and equality ----------------------------------------------------------------------------
def sign(v):
    """any number with the sign of v"""
    return AnyOf(lambda P, r: P.If(v > 0, r > 0, P.If(v < 0, r < 0, r == 0)))


def order(W, B, a, b):
    if B == 'Boolean':
        a, b = W.If(a, 1, 0), W.If(b, 1, 0)
    if B in ('Single', 'Double'):
        if W.fnan(a):
            return 0 if W.fnan(b) else -1
        if W.fnan(b):
            return 1
        return 1 if a > b else -1 if a < b else 0
    return W.If(a > b, 1, W.If(a < b, -1, 0))


def other(S, B):
    k = S.choose('other', ['same', 'null', 'box', 'str', 'self'])
    if k == 'null':
        return S.null()
    if k == 'str':
        return string(S, 's')
    if k == 'box':
        return box(S, 'o', S.choose('O', [x for x in ['Boolean', 'Int32', 'Int64', 'UInt32', 'Double', 'Char', 'TimeSpan'] if x != B]))
    return box(S, 'o', B) if k == 'same' else None


def is_box(W, p, B):
    return W.vtable_of(p) == '_ZTVN13DotnetLibrary%d%sE' % (len(BOXCLS[B]), BOXCLS[B])


def eqv(W, B, a, b):
    if B in ('Single', 'Double'):
        return order(W, B, a, b) == 0
    return a == b


for B in PRIM:
    def mk(B):
        fl = B in ('Single', 'Double')
        ar = CH[B]

        def s_val(S):
            return [box(S, 'b', B), val(S, 'x', B)]

        def s_obj(S):
            b = box(S, 'b', B)
            o = other(S, B)
            return [b, b if o is None else o]

        def cmp_val(W, p, x):
            return sign(order(W, B, value(W, p, B), x))

        def cmp_obj(W, p, o):
            if W.is_null(o):
                return AnyOf(lambda P, r: r > 0)
            if not is_box(W, o, B):
                W.throw('ArgumentException')
            return sign(order(W, B, value(W, p, B), value(W, o, B)))

        def eq_val(W, p, x):
            return eqv(W, B, value(W, p, B), x)

        def eq_obj(W, p, o):
            if W.is_null(o):
                return False
            if not is_box(W, o, B):
                return False
            return eqv(W, B, value(W, p, B), value(W, o, B))
        contract(B + '.CompareTo', P, cls(B) + '9CompareToE' + ar, 'i32', setup=s_val, spec=cmp_val, search=600)
        contract(B + '.CompareTo.obj', P, cls(B) + '9CompareToEPNS_6ObjectE', 'i32', setup=s_obj, spec=cmp_obj, search=600)
        contract(B + '.Equals', P, cls(B) + '6EqualsE' + ar, 'bool', setup=s_val, spec=eq_val, search=600)
        contract(B + '.Equals.obj', P, cls(B) + '6EqualsEPNS_6ObjectE', 'bool', setup=s_obj, spec=eq_obj, search=600)
    mk(B)


# ---- object identity and equality -----------------------------------------------------------------------
def anyval(S, name):
    k = S.choose('k_' + name, ['null', 'i32', 'i64', 'bool'])
    return S.null() if k == 'null' else box(S, name, {'i32': 'Int32', 'i64': 'Int64', 'bool': 'Boolean'}[k])


@contract('Object.Equals.static', P, N + '6Object6EqualsEPS0_S1_', 'bool')
class _:
    def setup(S):
        a = anyval(S, 'a')
        return [a, a if S.choose('alias', [0, 1]) else anyval(S, 'b')]

    def spec(W, a, b):
        if W.is_null(a):
            return W.is_null(b)
        if W.is_null(b):
            return False
        for B in ('Int32', 'Int64', 'Boolean'):
            if is_box(W, a, B):
                return eqv(W, B, value(W, a, B), value(W, b, B)) if is_box(W, b, B) else False


@contract('Object.Equals', P, N + '6Object6EqualsEPS0_', 'bool')
class _:
    """an object without a value of its own equals itself only"""
    def setup(S):
        a = S.obj(8, 'a', 'Object')
        k = S.choose('other', ['same', 'null', 'plain', 'box'])
        return [a, {'same': lambda: a, 'null': S.null, 'plain': lambda: S.obj(8, 'b', 'Object'), 'box': lambda: box(S, 'b', 'Int32')}[k]()]

    spec = lambda W, a, b: a.b == b.b
