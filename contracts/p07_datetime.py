"""DateTime arithmetic, differences and comparisons."""
from engine.verify import contract
from .kinds import *
from .p06_calendar import *

P = 'P07'
AOOR = 'ArgumentOutOfRangeException'
LO, HI = -2 ** 63, 2 ** 63 - 1


def span(S, name='ts'):
    p = S.obj(8, 'ts_' + name)
    S.set(p, 0, 'i64', S.int(name, 'i64'))
    return p


def ts(W, p):
    return W.ld(p, 0, 'i64')


def two(S):
    a = date(S, 'a')
    return [a, a if S.choose('alias', [0, 1]) else date(S, 'b')]


def exact(W, o, t):
    """the date of t ticks, if there is one"""
    if W.Or(t < 0, t > MAXT):
        W.throw(AOOR)
    gives(W, o, t)


# ---- ticks and spans -------------------------------------------------------------------------------------------
contract('DateTime.AddTicks', P, V + '8AddTicksEl', 'void', setup=lambda S: [out(S), boxed(S), S.int('d', 'i64')], spec=lambda W, o, p, d: exact(W, o, dv(W, p) + d))
contract('DateTime.Add.span', P, V + '3AddENS_8TimeSpanE', 'void', setup=lambda S: [out(S), boxed(S), span(S)], spec=lambda W, o, p, s: exact(W, o, dv(W, p) + ts(W, s)))
contract('DateTime.op_Addition', P, V + '11op_AdditionERKNS_8DateTimeENS_8TimeSpanE', 'void', setup=lambda S: [out(S), date(S, 'a'), span(S)], spec=lambda W, o, a, s: exact(W, o, dt(W, a) + ts(W, s)))
contract('DateTime.Subtract.span', P, V + '8SubtractENS_8TimeSpanE', 'void', setup=lambda S: [out(S), boxed(S), span(S)], spec=lambda W, o, p, s: exact(W, o, dv(W, p) - ts(W, s)))
contract('DateTime.op_Subtraction.span', P, V + '14op_SubtractionERKNS_8DateTimeENS_8TimeSpanE', 'void', setup=lambda S: [out(S), date(S, 'a'), span(S)],
         spec=lambda W, o, a, s: exact(W, o, dt(W, a) - ts(W, s)))
contract('DateTime.Subtract.date', P, V + '8SubtractERKNS_8DateTimeE', 'void', setup=lambda S: [out(S), boxed(S), date(S, 'b')], spec=lambda W, o, p, b: gives(W, o, dv(W, p) - dt(W, b), 'i64'))
contract('DateTime.op_Subtraction', P, V + '14op_SubtractionERKNS_8DateTimeES3_', 'void', setup=lambda S: [out(S)] + two(S), spec=lambda W, o, a, b: gives(W, o, dt(W, a) - dt(W, b), 'i64'))


# ---- amounts given as doubles: rounded to the nearest millisecond, halves away from zero -----------------------------
MAXMS = DAYS * 86400000


def add_scaled(W, o, p, v, scale):
    m = v * scale + (W.fc(0.5) if v >= W.fc(0.0) else W.fc(-0.5))
    if W.Not(W.And(m > W.fc(float(-MAXMS)), m < W.fc(float(MAXMS)))):
        W.throw(AOOR)
    exact(W, o, dv(W, p) + W.f2i(m, 64, True) * MS)


contract('DateTime.Add.double', P, V + '3AddEdi', 'void', setup=lambda S: [out(S), boxed(S), S.f64('v'), S.int('scale')], spec=lambda W, o, p, v, s: add_scaled(W, o, p, v, W.i2f(s, 64)))
for nm, ms in [('Days', 86400000), ('Hours', 3600000), ('Minutes', 60000), ('Seconds', 1000), ('Milliseconds', 1)]:
    contract('DateTime.Add' + nm, P, '%s%dAdd%sEd' % (V, len(nm) + 3, nm), 'void', setup=lambda S: [out(S), boxed(S), S.f64('v')],
             spec=(lambda ms: lambda W, o, p, v: add_scaled(W, o, p, v, W.fc(float(ms))))(ms))


# ---- months and years --------------------------------------------------------------------------------------------
def add_months(W, o, p, n):
    t = dv(W, p)
    day = t // DAY
    y, m, d, _ = civil(W, day)
    i = m - 1 + n
    y2 = y + i // 12
    m2 = i - (i // 12) * 12 + 1
    if W.Or(y2 < 1, y2 > 9999):
        W.throw(AOOR)
    l = month_len(W, y2, m2)
    d2 = W.If(d > l, l, d)
    gives(W, o, days_of(W, y2, m2, d2) * DAY + (t - day * DAY))


@contract('DateTime.AddMonths', P, V + '9AddMonthsEi', 'void', uses=['DateTime.GetDateParts', 'DateTime.DaysInMonth', 'DateToTicks'], opts={'opaque': True})
class _:
    setup = lambda S: [out(S), boxed(S), S.int('n')]

    def spec(W, o, p, n):
        if W.Or(n < -120000, n > 120000):
            W.throw(AOOR)
        add_months(W, o, p, n)


@contract('DateTime.AddYears', P, V + '8AddYearsEi', 'void', uses=['DateTime.AddMonths'], opts={'opaque': True})
class _:
    setup = lambda S: [out(S), boxed(S), S.int('n')]

    def spec(W, o, p, n):
        if W.Or(n < -10000, n > 10000):
            W.throw(AOOR)
        add_months(W, o, p, n * 12)


# ---- comparison ----------------------------------------------------------------------------------------------------
def order(W, a, b):
    return W.If(a > b, 1, W.If(a < b, -1, 0))


def sign(d):
    return AnyOf(lambda P, r: P.If(d > 0, r > 0, P.If(d < 0, r < 0, r == 0)))


def isdate(W, p):
    return W.vtable_of(p) == '_ZTVN13DotnetLibrary13DateTimeValueE'


def other(S):
    b = boxed(S)
    k = S.choose('other', ['same', 'null', 'box', 'span', 'str', 'self'])
    return [b, b if k == 'self' else S.null() if k == 'null' else string(S, 's') if k == 'str' else boxed(S, 'o') if k == 'same' else box(S, 'o', {'box': 'Int64', 'span': 'TimeSpan'}[k])]


def cmp_obj(W, p, o):
    if W.is_null(o):
        return AnyOf(lambda P, r: r > 0)
    if not isdate(W, o):
        W.throw('ArgumentException')
    return sign(order(W, dv(W, p), dv(W, o)))


def eq_obj(W, p, o):
    if W.is_null(o) or not isdate(W, o):
        return False
    return dv(W, p) == dv(W, o)


contract('DateTime.Compare', P, V + '7CompareERKNS_8DateTimeES3_', 'i32', setup=two, spec=lambda W, a, b: sign(order(W, dt(W, a), dt(W, b))))
contract('DateTime.CompareTo', P, V + '9CompareToERKNS_8DateTimeE', 'i32', setup=lambda S: [boxed(S), date(S, 'b')], spec=lambda W, p, b: sign(order(W, dv(W, p), dt(W, b))))
contract('DateTime.CompareTo.obj', P, V + '9CompareToEPNS_6ObjectE', 'i32', setup=other, spec=cmp_obj)
contract('DateTime.Equals', P, V + '6EqualsERKNS_8DateTimeE', 'bool', setup=lambda S: [boxed(S), date(S, 'b')], spec=lambda W, p, b: dv(W, p) == dt(W, b))
contract('DateTime.Equals.static', P, V + '6EqualsERKNS_8DateTimeES3_', 'bool', setup=two, spec=lambda W, a, b: dt(W, a) == dt(W, b))
contract('DateTime.Equals.obj', P, V + '6EqualsEPNS_6ObjectE', 'bool', setup=other, spec=eq_obj)
for nm, f in [('Equality', lambda a, b: a == b), ('GreaterThan', lambda a, b: a > b), ('GreaterThanOrEqual', lambda a, b: a >= b), ('Inequality', lambda a, b: a != b), ('LessThan', lambda a, b: a < b),
              ('LessThanOrEqual', lambda a, b: a <= b)]:
    contract('DateTime.op_' + nm, P, '%s%dop_%sERKNS_8DateTimeES3_' % (V, len(nm) + 3, nm), 'bool', setup=two, spec=(lambda f: lambda W, a, b: f(dt(W, a), dt(W, b)))(f))


# ---- the clock and the time zone -------------------------------------------------------------------------------------
def moment(kind):
    def spec(W, o):
        sec, ns = W.clock()
        f = lambda name: W.civil(kind, name, sec)
        y, m, d = f('year') + 1900, f('mon') + 1, f('mday')
        if W.Not(valid_date(W, y, m, d)):
            W.hidden.add(o.b)
            W.throw(AOOR)
        gives(W, o, days_of(W, y, m, d) * DAY + f('hour') * HOUR + f('min') * MIN + f('sec') * SEC + ns // 10 ** 6 * MS)
    return spec


CLOCK = dict(setup=lambda S: [out(S)], uses=['DateTime.ctor.parts'], nosearch=True)
contract('DateTime.UtcNow', P, V + '10get_UtcNowEv', 'void', spec=moment('gmtime'), **CLOCK)
contract('DateTime.Now', P, V + '7get_NowEv', 'void', spec=moment('localtime'), **CLOCK)


def today(W, o):
    sec, ns = W.clock()
    f = lambda name: W.civil('localtime', name, sec)
    y, m, d = f('year') + 1900, f('mon') + 1, f('mday')
    if W.Not(valid_date(W, y, m, d)):
        W.hidden.add(o.b)
        W.throw(AOOR)
    gives(W, o, days_of(W, y, m, d) * DAY)


contract('DateTime.Today', P, V + '9get_TodayEv', 'void', spec=today, **CLOCK)


def zone(W):
    """how far local time is ahead of universal time now, in ticks (seconds of an offset are dropped)"""
    sec, ns = W.clock()
    l, g = (lambda name: W.civil('localtime', name, sec)), (lambda name: W.civil('gmtime', name, sec))
    days = W.If(l('year') == g('year'), l('yday') - g('yday'), l('year') - g('year'))
    return days * DAY + (l('hour') - g('hour')) * HOUR + (l('min') - g('min')) * MIN


contract('DateTime.GetTimeZone', P, V + '11GetTimeZoneEv', 'void', setup=lambda S: [out(S), boxed(S)], spec=lambda W, o, p: gives(W, o, zone(W), 'i64'))
contract('DateTime.ToLocalTime', P, V + '11ToLocalTimeEv', 'void', setup=lambda S: [out(S), boxed(S)], spec=lambda W, o, p: exact(W, o, dv(W, p) + zone(W)))
contract('DateTime.ToLocalTime.flag', P, V + '11ToLocalTimeEb', 'void', setup=lambda S: [out(S), boxed(S), S.bool('throwOnOverflow')], spec=lambda W, o, p, f: exact(W, o, dv(W, p) + zone(W)))
contract('DateTime.ToUniversalTime', P, V + '15ToUniversalTimeEv', 'void', setup=lambda S: [out(S), boxed(S)], spec=lambda W, o, p: exact(W, o, dv(W, p) - zone(W)))


@contract('DateTime.IsDaylightSavingTime', P, V + '20IsDaylightSavingTimeEv', 'bool', uses=['DateTime.GetDatePart'])
class _:
    """what the C library answers for the date when it is left to decide; unknown counts as no"""
    setup = lambda S: [boxed(S)]

    def spec(W, p):
        t = dv(W, p)
        y, m, d, _ = civil(W, t // DAY)
        return W.dst(y - 1900, m - 1, d, t // HOUR % 24, t // MIN % 60, t // SEC % 60) > 0
