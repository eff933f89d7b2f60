"""Texts of values."""
from engine.verify import contract, SpecAny
from .kinds import *
from .sb import pick, text_form
from .p19_char import isdigit
from .p06_calendar import civil, boxed as cal_boxed, V as CV, MS, SEC, MIN, HOUR, DAY

P = 'P20'
NS = '_ZN13DotnetLibrary'


PRIMS = ['Boolean', 'Char', 'Single', 'Double'] + INTS


def fmt_setup(dt):
    def setup(S):
        v = val(S, 'v', dt)
        size = S.int('size', 'i32', 0, 2 ** 29, size=True)
        return [box(S, 'b', dt, v), S.buf('w', 'i32', size), size]
    return setup


def fmt_spec(dt):
    def spec(W, b, w, size):
        n, ch = text_form(W, dt, W.ld(b, 8, BTY[dt]) if dt != 'Boolean' else W.ld(b, 8, 'u8') != 0)
        if size <= n:
            if dt == 'Char':
                W.throw('IndexOutOfRangeException')
            # what a buffer that is too small receives is unspecified (but nothing outside it is written)
            W.hidden.add(w.b)
            return SpecAny
        W.set_region(w, 'i32', 0, n, ch)
        W.st_(w, 4 * n, 'i32', 0)
        return n
    return spec


for dt in PRIMS:
    cls = BOXCLS[dt]
    contract('%s.FormatString' % cls, P, NS + '%d%s12FormatStringEPwi' % (len(cls), cls), 'i32', setup=fmt_setup(dt), spec=fmt_spec(dt))
    contract('%s.ToString' % cls, P, NS + '6Object8ToStringEv', 'ptr', setup=(lambda dt: lambda S: [box(S, 'b', dt)])(dt),
             spec=(lambda dt: lambda W, b: NewStr(*text_form(W, dt, W.ld(b, 8, BTY[dt]) if dt != 'Boolean' else W.ld(b, 8, 'u8') != 0)))(dt))


# ---- dates and spans ---------------------------------------------------------------------------------------------------
def into(W, w, size, n, ch):
    if size <= n:
        W.throw('IndexOutOfRangeException')
    W.set_region(w, 'i32', 0, n, ch)
    W.st_(w, 4 * n, 'i32', 0)
    return n


def date_text(W, t):
    """month/day/year hour:minute:second AM or PM"""
    y, m, d, _ = civil(W, t // DAY)
    h = t // HOUR % 24
    return W.joined(W.dec(m), '/', W.dec(d), '/', W.dec(y), ' ', W.dec(W.If(h > 12, h - 12, h)), ':', W.dec(t // MIN % 60, 2), ':', W.dec(t // SEC % 60, 2), ' ',
                    (2, lambda k: W.If(k == 0, W.If(h >= 12, 80, 65), 77)))


def fmt(mk):
    def setup(S):
        size = S.int('size', 'i32', 0, 2 ** 29, size=True)
        return [mk(S), S.buf('w', 'i32', size), size]
    return setup


def span_box(S):
    """any span, as days, seconds and a fraction"""
    neg = S.choose('negative', [0, 1])
    d = S.int('days', 'i32', 1, 2 ** 63 // DAY) if S.choose('days', [0, 1]) else 0
    f = S.int('fraction', 'i32', 1, SEC - 1) if S.choose('fraction', [0, 1]) else 0
    v = d * DAY + S.int('seconds', 'i32', 1 if neg and isinstance(d, int) and isinstance(f, int) else 0, 86399) * SEC + f
    S.assume(v <= 2 ** 63 - 1 + neg)
    return box(S, 'b', 'TimeSpan', 0 - v if neg else v)


def span_text(W, v):
    """[-][days.]hours:minutes:seconds[.fraction in seven digits]"""
    a = W.If(v < 0, 0 - v, v)
    head = [] if not v < 0 else ['-']
    if a >= DAY:
        head += [W.dec(a // DAY), '.']
    f = a % SEC
    tail = [] if f == 0 else ['.', W.dec(f, 7)]
    return W.joined(*head, W.dec(a // HOUR % 24, 2), ':', W.dec(a // MIN % 60, 2), ':', W.dec(a // SEC % 60, 2), *tail)


contract('DateTime.FormatString', P, CV + '12FormatStringEPwi', 'i32', setup=fmt(lambda S: cal_boxed(S)), spec=lambda W, b, w, size: into(W, w, size, *date_text(W, W.ld(b, 8, 'u64'))),
         uses=['DateTime.Month', 'DateTime.Day', 'DateTime.Year', 'DateTime.GetDatePart', 'DateTime.GetDateParts'], opts={'opaque': True})
contract('TimeSpan.FormatString', P, NS + '13TimeSpanValue12FormatStringEPwi', 'i32', setup=fmt(span_box),
         spec=lambda W, b, w, size: into(W, w, size, *span_text(W, W.ld(b, 8, 'i64'))),
         uses=['SB.Append.repeat'])

contract('DateTimeValue.ToString', P, NS + '6Object8ToStringEv', 'ptr', setup=lambda S: [cal_boxed(S)], spec=lambda W, b: NewStr(*date_text(W, W.ld(b, 8, 'u64'))), uses=['DateTime.FormatString'], opts={'opaque': True})
contract('TimeSpanValue.ToString', P, NS + '6Object8ToStringEv', 'ptr', setup=lambda S: [span_box(S)], spec=lambda W, b: NewStr(*span_text(W, W.ld(b, 8, 'i64'))), uses=['TimeSpan.FormatString'])


# ---- parsing of formatted spans: every text of the form [-][days.]hours:minutes:seconds[.fraction], digit by digit ------------
def two(S, name, top):
    a, b = S.int(name + '1', 'i32', 0, top), S.int(name + '2', 'i32', 0, 9)
    return [48 + a, 48 + b], 10 * a + b


def span_string(S, digits):
    """the text of a span and its value"""
    neg = S.choose('negative', [0, 1])
    txt, v = [45] * neg, 0
    n = S.choose('digits of days', digits)
    for k in range(n):
        d = S.int('day%d' % k, 'i32', 1 if k == 0 else 0, 9)
        txt.append(48 + d)
        v = 10 * v + d
    if n:
        txt.append(46)
    h, hours = two(S, 'hour', 2)
    m, minutes = two(S, 'minute', 5)
    s, seconds = two(S, 'second', 5)
    S.assume(hours <= 23)
    txt += h + [58] + m + [58] + s
    v = v * DAY + hours * HOUR + minutes * MIN + seconds * SEC
    if S.choose('fraction', [0, 1]):
        txt.append(46)
        f = 0
        for k in range(7):
            d = S.int('fraction%d' % k, 'i32', 0, 9)
            txt.append(48 + d)
            f = 10 * f + d
        v = v + f
    S.assume(v <= 2 ** 63 - 1 + neg)
    p = S.obj(24, 's', 'String')
    S.set(p, 8, 'ptr', S.buf('s_s', 'i32', len(txt) + 1, vals=txt + [0]))
    S.set(p, 16, 'i32', len(txt))
    S.set(p, 20, 'u8', 1)
    S.value = 0 - v if neg else v
    return p


def spans(S):
    return [span_string(S, range(9))]


def span_value(W, s):
    """what the text says, read digit by digit"""
    n, ch = slen(W, s), sch(W, s)
    k = 0
    neg = bool(ch(0) == 45)
    if neg:
        k = 1
    nums, v = [], 0
    days = False
    while True:
        if W.Or(k == n, W.Not(isdigit(W, ch(k)))):
            nums.append(v)
            v = 0
            if k == n or len(nums) == 3 + days:
                break
            if ch(k) == 46:
                days = True
        else:
            v = 10 * v + (ch(k) - 48)
        k += 1
    nums = nums if days else [0] + nums
    f, u = 0, SEC // 10
    for j in range(k + 1, n):
        f, u = f + (ch(j) - 48) * u, u // 10
    v = nums[0] * DAY + nums[1] * HOUR + nums[2] * MIN + nums[3] * SEC + f
    return 0 - v if neg else v


def parse_span(W, o, s):
    if W.is_null(s):
        W.hidden.add(o.b)
        W.throw('ArgumentNullException')
    W.st_(o, 0, 'i64', span_value(W, s))


def try_parse_span(W, s, o):
    if W.is_null(s):
        W.st_(o, 0, 'i64', 0)
        return False
    W.st_(o, 0, 'i64', span_value(W, s))
    return True


def out8(S):
    o = S.obj(8, 'out')
    S.set(o, 0, 'i64', S.int('old', 'i64'))
    return o


TSV = NS + '13TimeSpanValue'
contract('TimeSpan.Parse', P, TSV + '5ParseEPNS_6StringE', 'void', setup=lambda S: [S.obj(8, 'out')] + spans(S), spec=parse_span, opts={'unroll_all': True})
contract('TimeSpan.TryParse', P, TSV + '8TryParseEPNS_6StringERNS_8TimeSpanE', 'bool', setup=lambda S: spans(S) + [out8(S)], spec=try_parse_span, opts={'unroll_all': True})
contract('TimeSpan.Parse.null', P, TSV + '5ParseEPNS_6StringE', 'void', setup=lambda S: [S.obj(8, 'out'), S.null()], spec=parse_span)
contract('TimeSpan.TryParse.null', P, TSV + '8TryParseEPNS_6StringERNS_8TimeSpanE', 'bool', setup=lambda S: [S.null(), out8(S)], spec=try_parse_span)


contract('Char.ToString.static', P, NS + '9CharValue8ToStringEw', 'ptr', setup=lambda S: [val(S, 'c', 'Char')], spec=lambda W, c: NewStr(1, lambda k: c))


# ---- objects without a text of their own -----------------------------------------------------------------------------
@contract('Object.FormatString', P, NS + '6Object12FormatStringEPwi', 'i32')
class _:
    def setup(S):
        size = S.int('size', 'i32', 0, 2 ** 29, size=True)
        return [S.obj(8, 'o', 'Object'), S.buf('w', 'i32', size), size]

    def spec(W, o, w, size):
        # as much of the text as fits
        n = W.min(6, size - 1)
        if size >= 1:
            W.set_region(w, 'i32', 0, n, lambda k: pick(W, 'Object', k))
            W.st_(w, 4 * n, 'i32', 0)
        return 6


contract('Object.ToString', P, NS + '6Object8ToStringEv', 'ptr', setup=lambda S: [S.obj(8, 'o', 'Object')], spec=lambda W, o: NewStr(6, lambda k: pick(W, 'Object', k)))
