"""TimeSpan: exact 64-bit tick arithmetic, components, totals and comparisons."""
from engine.verify import contract
from .kinds import *

P = 'P08'
V = '_ZN13DotnetLibrary13TimeSpanValue'
TS = '_ZN13DotnetLibrary8TimeSpan'
LO, HI = -2 ** 63, 2 ** 63 - 1
MS, SEC, MIN, HOUR, DAY = 10 ** 4, 10 ** 7, 60 * 10 ** 7, 3600 * 10 ** 7, 86400 * 10 ** 7


def span(S, name):
    """a TimeSpan in memory"""
    p = S.obj(8, 'ts_' + name)
    S.set(p, 0, 'i64', S.int(name, 'i64'))
    return p


def two(S):
    a = span(S, 'a')
    return [a, a if S.choose('alias', [0, 1]) else span(S, 'b')]


def boxed(S):
    return box(S, 'v', 'TimeSpan')


def tv(W, p):
    return W.ld(p, 8, 'i64')


def ts(W, p):
    return W.ld(p, 0, 'i64')


def out(S):
    return S.obj(8, 'out')


def gives(W, o, v):
    W.st_(o, 0, 'i64', v)


def exact(W, o, v, exc='OverflowException'):
    if W.Or(v < LO, v > HI):
        W.throw(exc)
    gives(W, o, v)


# ---- construction --------------------------------------------------------------------------------------------
contract('TimeSpan.ctor.ticks', P, TS + 'C2El', 'void', setup=lambda S: [S.obj(8, 'p'), S.int('v', 'i64')], spec=lambda W, p, v: gives(W, p, v), optional=True)
contract('TimeSpan.ctor.copy', P, TS + 'C2ERKS0_', 'void', setup=lambda S: [S.obj(8, 'p'), span(S, 'v')], spec=lambda W, p, q: gives(W, p, ts(W, q)), optional=True)
contract('TimeSpan.ctor.zero', P, TS + 'C2Ev', 'void', setup=lambda S: [S.obj(8, 'p')], spec=lambda W, p: gives(W, p, 0), optional=True)


def build(W, p, t, unit):
    if W.Or(t * unit < LO, t * unit > HI):
        W.hidden.add(p.b)
        W.throw('ArgumentOutOfRangeException')
    gives(W, p, t * unit)


@contract('TimeSpan.ctor.hms', P, TS + 'C2Eiii', 'void')
class _:
    setup = lambda S: [S.obj(8, 'p'), S.int('h'), S.int('m'), S.int('s')]

    def spec(W, p, h, m, s):
        build(W, p, h * 3600 + m * 60 + s, SEC)


@contract('TimeSpan.ctor.dhmsm', P, TS + 'C2Eiiiii', 'void')
class _:
    setup = lambda S: [S.obj(8, 'p'), S.int('d'), S.int('h'), S.int('m'), S.int('s'), S.int('ms')]

    def spec(W, p, d, h, m, s, ms):
        build(W, p, (d * 86400 + h * 3600 + m * 60 + s) * 1000 + ms, MS)


@contract('TimeSpanValue.ctor', P, V + 'C2ENS_8TimeSpanE', 'void', optional=True)
class _:
    setup = lambda S: [S.obj(16, 'p'), span(S, 'v')]

    def spec(W, p, q):
        W.builds(p, newbox('TimeSpan', ts(W, q)))


contract('TimeSpanValue.ctor.zero', P, V + 'C2Ev', 'void', setup=lambda S: [S.obj(16, 'p')], spec=lambda W, p: W.builds(p, newbox('TimeSpan', 0)), optional=True)
contract('TimeSpanValue.ctor.ticks', P, V + 'C2Em', 'void', setup=lambda S: [S.obj(16, 'p'), S.int('v', 'i64')], spec=lambda W, p, v: W.builds(p, newbox('TimeSpan', v)), optional=True)
contract('TimeSpan.FromTicks', P, V + '9FromTicksEl', 'void', setup=lambda S: [out(S), S.int('v', 'i64')], spec=lambda W, o, v: gives(W, o, v))
contract('TimeSpan.get_AsTimeSpan', P, V + '14get_AsTimeSpanEv', 'void', setup=lambda S: [out(S), boxed(S)], spec=lambda W, o, p: gives(W, o, tv(W, p)))


# the static limits
for nm, v in [('8MaxValueE', HI), ('8MinValueE', LO), ('4ZeroE', 0)]:
    contract('TimeSpan.limits.' + nm[1:-1], P, V + '12op_UnaryPlusERKNS_8TimeSpanE', 'void', setup=(lambda nm: lambda S: [out(S), S.glob(V + nm)])(nm), spec=(lambda v: lambda W, p, q: gives(W, p, v))(v))


# ---- components and totals --------------------------------------------------------------------------------------
def comp(unit, mod):
    def spec(W, p):
        q = W.tdiv(tv(W, p), unit)
        return q - W.tdiv(q, mod) * mod if mod else q
    return spec


for nm, unit, mod in [('Days', DAY, 0), ('Hours', HOUR, 24), ('Minutes', MIN, 60), ('Seconds', SEC, 60), ('Milliseconds', MS, 1000)]:
    contract('TimeSpan.' + nm, P, '%s%dget_%sEv' % (V, len(nm) + 4, nm), 'i32', setup=lambda S: [boxed(S)], spec=comp(unit, mod))
contract('TimeSpan.Ticks', P, V + '9get_TicksEv', 'i64', setup=lambda S: [boxed(S)], spec=lambda W, p: tv(W, p))


def total(unit):
    return lambda W, p: W.i2f(tv(W, p), 64) / W.fc(float(unit))


for nm, unit in [('Days', DAY), ('Hours', HOUR), ('Minutes', MIN), ('Seconds', SEC)]:
    contract('TimeSpan.Total' + nm, P, '%s%dget_Total%sEv' % (V, len(nm) + 9, nm), 'f64', setup=lambda S: [boxed(S)], spec=total(unit))


@contract('TimeSpan.TotalMilliseconds', P, V + '21get_TotalMillisecondsEv', 'f64')
class _:
    setup = lambda S: [boxed(S)]

    def spec(W, p):
        t = W.i2f(tv(W, p), 64) / W.fc(float(MS))
        if t > W.fc(922337203685477.0):
            return W.fc(922337203685477.0)
        if t < W.fc(-922337203685477.0):
            return W.fc(-922337203685477.0)
        return t


# ---- arithmetic ------------------------------------------------------------------------------------------------
contract('TimeSpan.Add', P, V + '3AddERKNS_8TimeSpanE', 'void', setup=lambda S: [out(S), boxed(S), span(S, 'b')], spec=lambda W, o, p, q: exact(W, o, tv(W, p) + ts(W, q)))
contract('TimeSpan.Subtract', P, V + '8SubtractERKNS_8TimeSpanE', 'void', setup=lambda S: [out(S), boxed(S), span(S, 'b')], spec=lambda W, o, p, q: exact(W, o, tv(W, p) - ts(W, q)))
contract('TimeSpan.Negate', P, V + '6NegateEv', 'void', setup=lambda S: [out(S), boxed(S)], spec=lambda W, o, p: exact(W, o, -tv(W, p)))
contract('TimeSpan.Duration', P, V + '8DurationEv', 'void', setup=lambda S: [out(S), boxed(S)], spec=lambda W, o, p: exact(W, o, W.If(tv(W, p) >= 0, tv(W, p), -tv(W, p))))
contract('TimeSpan.op_Addition', P, V + '11op_AdditionERKNS_8TimeSpanES3_', 'void', setup=lambda S: [out(S)] + two(S), spec=lambda W, o, a, b: exact(W, o, ts(W, a) + ts(W, b)))
contract('TimeSpan.op_Subtraction', P, V + '14op_SubtractionERKNS_8TimeSpanES3_', 'void', setup=lambda S: [out(S)] + two(S), spec=lambda W, o, a, b: exact(W, o, ts(W, a) - ts(W, b)))
contract('TimeSpan.op_UnaryNegation', P, V + '16op_UnaryNegationERKNS_8TimeSpanE', 'void', setup=lambda S: [out(S), span(S, 'a')], spec=lambda W, o, a: exact(W, o, -ts(W, a)))
contract('TimeSpan.op_UnaryPlus', P, V + '12op_UnaryPlusERKNS_8TimeSpanE', 'void', setup=lambda S: [out(S), span(S, 'a')], spec=lambda W, o, a: gives(W, o, ts(W, a)))


# ---- floating-point scaling ---------------------------------------------------------------------------------------
def toticks(W, o, x):
    """the double as ticks, truncated, if it fits"""
    if W.Not(W.And(x >= W.fc(float(LO)), x < W.fc(2.0 ** 63))):
        W.throw('OverflowException')
    gives(W, o, W.f2i(x, 64, True))


def interval(W, o, v, scale):
    if W.fnan(v):
        W.throw('ArgumentException')
    toticks(W, o, v * scale)


contract('TimeSpan.Interval', P, V + '8IntervalEdd', 'void', setup=lambda S: [out(S), S.f64('v'), S.f64('scale')], spec=interval)
for nm, unit in [('Days', DAY), ('Hours', HOUR), ('Minutes', MIN), ('Seconds', SEC), ('Milliseconds', MS)]:
    contract('TimeSpan.From' + nm, P, '%s%dFrom%sEd' % (V, len(nm) + 4, nm), 'void', setup=lambda S: [out(S), S.f64('v')], spec=(lambda u: lambda W, o, v: interval(W, o, v, W.fc(float(u))))(unit),
             timeout=120)


def multiply(W, o, t, f):
    if W.fnan(f):
        W.throw('ArgumentException')
    toticks(W, o, W.fround(W.i2f(t, 64) * f, 'even'))


def divide(W, o, t, d):
    if W.fnan(d):
        W.throw('ArgumentException')
    toticks(W, o, W.fround(W.i2f(t, 64) / d, 'even'))


def fref(S, name):
    p = S.obj(8, 'f_' + name)
    S.set(p, 0, 'f64', S.f64(name))
    return p


def fv(W, p):
    return W.ld(p, 0, 'f64')


U = ['Math.Round.1']
contract('TimeSpan.Multiply', P, V + '8MultiplyEd', 'void', setup=lambda S: [out(S), boxed(S), S.f64('f')], spec=lambda W, o, p, f: multiply(W, o, tv(W, p), f), uses=U)
contract('TimeSpan.Divide', P, V + '6DivideEd', 'void', setup=lambda S: [out(S), boxed(S), S.f64('d')], spec=lambda W, o, p, d: divide(W, o, tv(W, p), d), uses=U)
contract('TimeSpan.op_Multiply.l', P, V + '11op_MultiplyERKdRKNS_8TimeSpanE', 'void', setup=lambda S: [out(S), fref(S, 'f'), span(S, 'a')], spec=lambda W, o, f, a: multiply(W, o, ts(W, a), fv(W, f)), uses=U)
contract('TimeSpan.op_Multiply.r', P, V + '11op_MultiplyERKNS_8TimeSpanERKd', 'void', setup=lambda S: [out(S), span(S, 'a'), fref(S, 'f')], spec=lambda W, o, a, f: multiply(W, o, ts(W, a), fv(W, f)), uses=U)
contract('TimeSpan.op_Division.d', P, V + '11op_DivisionERKNS_8TimeSpanERKd', 'void', setup=lambda S: [out(S), span(S, 'a'), fref(S, 'd')], spec=lambda W, o, a, d: divide(W, o, ts(W, a), fv(W, d)), uses=U)
ratio = lambda W, a, b: W.i2f(a, 64) / W.i2f(b, 64)
contract('TimeSpan.Divide.span', P, V + '6DivideENS_8TimeSpanE', 'f64', setup=lambda S: [boxed(S), span(S, 'b')], spec=lambda W, p, b: ratio(W, tv(W, p), ts(W, b)))
contract('TimeSpan.op_Division.span', P, V + '11op_DivisionERKNS_8TimeSpanES3_', 'f64', setup=two, spec=lambda W, a, b: ratio(W, ts(W, a), ts(W, b)))


# ---- comparison ---------------------------------------------------------------------------------------------------
def order(W, a, b):
    return W.If(a > b, 1, W.If(a < b, -1, 0))


def sign(d):
    return AnyOf(lambda P, r: P.If(d > 0, r > 0, P.If(d < 0, r < 0, r == 0)))


def isspan(W, p):
    return W.vtable_of(p) == '_ZTVN13DotnetLibrary13TimeSpanValueE'


def other(S):
    b = boxed(S)
    k = S.choose('other', ['same', 'null', 'box', 'date', 'str', 'self'])
    return [b, b if k == 'self' else S.null() if k == 'null' else string(S, 's') if k == 'str' else box(S, 'o', {'same': 'TimeSpan', 'box': 'Int64', 'date': 'DateTime'}[k])]


def cmp_obj(W, p, o):
    if W.is_null(o):
        return AnyOf(lambda P, r: r > 0)
    if not isspan(W, o):
        W.throw('ArgumentException')
    return sign(order(W, tv(W, p), tv(W, o)))


def eq_obj(W, p, o):
    if W.is_null(o) or not isspan(W, o):
        return False
    return tv(W, p) == tv(W, o)


contract('TimeSpan.Compare', P, V + '7CompareERKNS_8TimeSpanES3_', 'i32', setup=two, spec=lambda W, a, b: sign(order(W, ts(W, a), ts(W, b))))
contract('TimeSpan.CompareTo', P, V + '9CompareToENS_8TimeSpanE', 'i32', setup=lambda S: [boxed(S), span(S, 'b')], spec=lambda W, p, b: sign(order(W, tv(W, p), ts(W, b))))
contract('TimeSpan.CompareTo.obj', P, V + '9CompareToEPNS_6ObjectE', 'i32', setup=other, spec=cmp_obj)
contract('TimeSpan.Equals', P, V + '6EqualsERKNS_8TimeSpanE', 'bool', setup=lambda S: [boxed(S), span(S, 'b')], spec=lambda W, p, b: tv(W, p) == ts(W, b))
contract('TimeSpan.Equals.static', P, V + '6EqualsERKNS_8TimeSpanES3_', 'bool', setup=two, spec=lambda W, a, b: ts(W, a) == ts(W, b))
contract('TimeSpan.Equals.obj', P, V + '6EqualsEPNS_6ObjectE', 'bool', setup=other, spec=eq_obj)
for nm, f in [('Equality', lambda a, b: a == b), ('GreaterThan', lambda a, b: a > b), ('GreaterThanOrEqual', lambda a, b: a >= b), ('Inequality', lambda a, b: a != b), ('LessThan', lambda a, b: a < b),
              ('LessThanOrEqual', lambda a, b: a <= b)]:
    contract('TimeSpan.op_' + nm, P, '%s%dop_%sERKNS_8TimeSpanES3_' % (V, len(nm) + 3, nm), 'bool', setup=two, spec=(lambda f: lambda W, a, b: f(ts(W, a), ts(W, b)))(f))
