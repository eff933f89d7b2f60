"""The proleptic Gregorian calendar: ticks <-> parts."""
from engine.verify import contract
from .kinds import *

P = 'P06'
N = '_ZN13DotnetLibrary'
V = N + '13DateTimeValue'
D = N + '8DateTime'
MS, SEC, MIN, HOUR, DAY = 10 ** 4, 10 ** 7, 60 * 10 ** 7, 3600 * 10 ** 7, 86400 * 10 ** 7
DAYS = 3652059                      # 0001-01-01 .. 9999-12-31
MAXT = DAYS * DAY - 1
LEN = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]


# ---- the calendar ------------------------------------------------------------------------------------------------
def leap(W, y):
    """Gregorian rule"""
    return W.And(y % 4 == 0, W.Or(y % 100 != 0, y % 400 == 0))


def before(y):
    """days before January 1 of year y >= 1"""
    p = y - 1
    return 365 * p + p // 4 - p // 100 + p // 400


def cum(W, y, m):
    """days of year y before month m (1..13)"""
    lp = W.If(leap(W, y), 1, 0)
    r = 0
    for k in range(12, 0, -1):
        v = sum(LEN[:k])
        r = W.If(m == k + 1, v if k < 2 else v + lp, r) if k < 12 else W.If(m == 13, v + lp, r)
    return r


def month_len(W, y, m):
    r = 31
    for k in range(12):
        if LEN[k] != 31:
            r = W.If(m == k + 1, LEN[k] if k != 1 else 28 + W.If(leap(W, y), 1, 0), r)
    return r


def year_parts(W, n):
    """(year, is it a leap year, day in the year from 0) of day number n (0 = 0001-01-01), by a formula; the lemmas say that it is the Gregorian year"""
    a = n // 146097
    n1 = n - a * 146097
    b = n1 // 36524
    b = W.If(b == 4, 3, b)
    n2 = n1 - b * 36524
    c = n2 // 1461
    n3 = n2 - c * 1461
    d = n3 // 365
    d = W.If(d == 4, 3, d)
    y = 400 * a + 100 * b + 4 * c + d + 1
    k = n3 - d * 365
    lp = W.And(d == 3, W.Or(c != 24, b == 3))
    ly = W.spec_fn('year', y, n)
    if ly is not y:
        y, lp, k = ly, leap(W, ly), n - before(ly)
    ok = W.And(n >= 0, n < DAYS)
    W.lemma('the year of a day contains it', W.Implies(ok, W.And(before(y) <= n, n < before(y + 1), y >= 1, y <= 9999)))
    W.lemma('day of the year', k == n - before(y))
    W.lemma('leap year', W.If(lp, 1, 0) == W.If(leap(W, y), 1, 0))
    return y, lp, k


def year_of(W, n):
    return year_parts(W, n)[0]


def civil(W, n):
    """(year, month, day, day of year) of day number n"""
    y, lp, k = year_parts(W, n)
    lp = W.If(lp, 1, 0)
    m, c = 1, 0
    for i in range(1, 12):
        v = sum(LEN[:i]) + (0 if i < 2 else lp)
        m, c = W.If(k >= v, i + 1, m), W.If(k >= v, v, c)
    d = k - c + 1
    m, d = W.spec_fn('month', m, n), W.spec_fn('day', d, n)
    W.lemma('the month of a day contains it', W.Implies(W.And(n >= 0, n < DAYS), W.And(m >= 1, m <= 12, d >= 1, d <= month_len(W, y, m), days_of(W, y, m, d) == n)))
    return y, m, d, k + 1


def days_of(W, y, m, d):
    """day number of a valid date"""
    return before(y) + cum(W, y, m) + d - 1


def valid_date(W, y, m, d):
    return W.And(y >= 1, y <= 9999, m >= 1, m <= 12, d >= 1, d <= month_len(W, y, m))


# ---- objects -------------------------------------------------------------------------------------------------------
def date(S, name):
    """a DateTime in memory"""
    p = S.obj(8, 'dt_' + name)
    S.set(p, 0, 'u64', S.int(name, 'u64', 0, MAXT))
    return p


def boxed(S, name='v'):
    return box(S, name, 'DateTime', S.int(name, 'u64', 0, MAXT))


def dv(W, p):
    return W.ld(p, 8, 'u64')


def dt(W, p):
    return W.ld(p, 0, 'u64')


def out(S):
    return S.obj(8, 'out')


def gives(W, o, v, ty='u64'):
    W.st_(o, 0, ty, v)


# ---- construction --------------------------------------------------------------------------------------------------
def bad(W, p):
    W.hidden.add(p.b)
    W.throw('ArgumentOutOfRangeException')


@contract('DateTime.ctor.ticks', P, D + 'C2Em', 'void')
class _:
    setup = lambda S: [S.obj(8, 'p'), S.int('v', 'u64')]

    def spec(W, p, v):
        if v > MAXT:
            bad(W, p)
        gives(W, p, v)


contract('DateTime.ctor.copy', P, D + 'C2ERKS0_', 'void', setup=lambda S: [S.obj(8, 'p'), date(S, 'v')], spec=lambda W, p, q: gives(W, p, dt(W, q)))
contract('DateTime.ctor.zero', P, D + 'C2Ev', 'void', setup=lambda S: [S.obj(8, 'p')], spec=lambda W, p: gives(W, p, 0))


@contract('DateTimeValue.ctor', P, V + 'C2ENS_8DateTimeE', 'void', optional=True)
class _:
    setup = lambda S: [S.obj(16, 'p'), date(S, 'v')]

    def spec(W, p, q):
        W.builds(p, newbox('DateTime', dt(W, q)))


contract('DateTimeValue.ctor.zero', P, V + 'C2Ev', 'void', setup=lambda S: [S.obj(16, 'p')], spec=lambda W, p: W.builds(p, newbox('DateTime', 0)), optional=True)


def valid_time(W, h, mi, s, ms):
    return W.And(h >= 0, h < 24, mi >= 0, mi < 60, s >= 0, s < 60, ms >= 0, ms < 1000)


@contract('DateTime.ctor.parts', P, D + 'C2Eiiiiiii', 'void', uses=['DateToTicks', 'TimeToTicks'])
class _:
    setup = lambda S: [S.obj(8, 'p')] + [S.int(x) for x in ('year', 'month', 'day', 'hour', 'minute', 'second', 'ms')]

    def spec(W, p, y, m, d, h, mi, s, ms):
        if W.Not(W.And(valid_date(W, y, m, d), valid_time(W, h, mi, s, ms))):
            bad(W, p)
        gives(W, p, days_of(W, y, m, d) * DAY + h * HOUR + mi * MIN + s * SEC + ms * MS)


@contract('DateToTicks', P, N + '11DateToTicksEiii', 'i64')
class _:
    setup = lambda S: [S.int('year'), S.int('month'), S.int('day')]

    def spec(W, y, m, d):
        if W.Not(valid_date(W, y, m, d)):
            W.throw('ArgumentOutOfRangeException')
        return days_of(W, y, m, d) * DAY


@contract('TimeToTicks', P, N + '11TimeToTicksEiiii', 'i64')
class _:
    setup = lambda S: [S.int('hour'), S.int('minute'), S.int('second'), S.int('ms')]

    def spec(W, h, mi, s, ms):
        if W.Not(valid_time(W, h, mi, s, ms)):
            W.throw('ArgumentOutOfRangeException')
        return h * HOUR + mi * MIN + s * SEC + ms * MS


# ---- the calendar functions ------------------------------------------------------------------------------------------
contract('IsLeapYear.free', P, N + '10IsLeapYearEi', 'bool', setup=lambda S: [S.int('year')], spec=leap)


@contract('DateTime.IsLeapYear', P, V + '10IsLeapYearEi', 'bool')
class _:
    setup = lambda S: [S.int('year')]

    def spec(W, y):
        if W.Or(y < 1, y > 9999):
            W.throw('ArgumentOutOfRangeException')
        return leap(W, y)


@contract('DateTime.DaysInMonth', P, V + '11DaysInMonthEii', 'i32')
class _:
    setup = lambda S: [S.int('year'), S.int('month')]

    def spec(W, y, m):
        if W.Or(y < 1, y > 9999, m < 1, m > 12):
            W.throw('ArgumentOutOfRangeException')
        return month_len(W, y, m)


# ---- decomposition -----------------------------------------------------------------------------------------------------
@contract('DateTime.GetDatePart', P, V + '11GetDatePartEi', 'i32')
class _:
    setup = lambda S: [boxed(S), S.choose('part', [0, 1, 2, 3])]

    def spec(W, p, part):
        n = dv(W, p) // DAY
        if part == 0:
            return year_of(W, n)
        y, m, d, k = civil(W, n)
        return k if part == 1 else m if part == 2 else d


@contract('DateTime.GetDateParts', P, V + '11GetDatePartERiS1_S1_', 'void', opts={'prove_lemmas': True}, weight=3)
class _:
    def setup(S):
        ps = []
        for x in ('year', 'month', 'day'):
            p = S.obj(4, x)
            S.set(p, 0, 'i32', S.int(x))
            ps.append(p)
        return [boxed(S)] + ps

    def spec(W, p, py, pm, pd):
        y, m, d, k = civil(W, dv(W, p) // DAY)
        W.st_(py, 0, 'i32', y)
        W.st_(pm, 0, 'i32', m)
        W.st_(pd, 0, 'i32', d)


def part(i):
    def spec(W, p):
        n = dv(W, p) // DAY
        return year_of(W, n) if i == 0 else civil(W, n)[i]
    return spec


G = ['DateTime.GetDatePart']
for nm, i in [('Year', 0), ('Month', 1), ('Day', 2), ('DayOfYear', 3)]:
    contract('DateTime.' + nm, P, '%s%dget_%sEv' % (V, len(nm) + 4, nm), 'i32', setup=lambda S: [boxed(S)], spec=part(i))
for nm, unit, mod in [('Hour', HOUR, 24), ('Minute', MIN, 60), ('Second', SEC, 60), ('Millisecond', MS, 1000)]:
    contract('DateTime.' + nm, P, '%s%dget_%sEv' % (V, len(nm) + 4, nm), 'i32', setup=lambda S: [boxed(S)], spec=(lambda u, k: lambda W, p: dv(W, p) // u % k)(unit, mod))
# 0001-01-01 was a Monday; Sunday is 0
contract('DateTime.DayOfWeek', P, V + '13get_DayOfWeekEv', 'i32', setup=lambda S: [boxed(S)], spec=lambda W, p: (dv(W, p) // DAY + 1) % 7)
contract('DateTime.Date', P, V + '8get_DateEv', 'void', setup=lambda S: [out(S), boxed(S)], spec=lambda W, o, p: gives(W, o, dv(W, p) // DAY * DAY))
contract('DateTime.TimeOfDay', P, V + '13get_TimeOfDayEv', 'void', setup=lambda S: [out(S), boxed(S)], spec=lambda W, o, p: gives(W, o, dv(W, p) % DAY, 'i64'))
contract('DateTime.get_AsDateTime', P, V + '14get_AsDateTimeEv', 'void', setup=lambda S: [out(S), boxed(S)], spec=lambda W, o, p: gives(W, o, dv(W, p)))
for nm, v in [('8MaxValueE', MAXT), ('8MinValueE', 0)]:
    contract('DateTime.limits.' + nm[1:-1], P, D + 'C2ERKS0_', 'void', setup=(lambda nm: lambda S: [S.obj(8, 'p'), S.glob(V + nm)])(nm), spec=(lambda v: lambda W, p, q: gives(W, p, v))(v))
