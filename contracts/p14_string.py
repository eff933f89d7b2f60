"""String transforms: new texts made of old ones; the source is never changed."""
from engine.verify import contract
from .kinds import *
from .sb import text_form
from .p13_strsearch import chararr, any_check
from .p15_builder import object_text, nstring, FORMATS, SB

P = 'P14'
STR = '_ZN13DotnetLibrary6String'
I32 = 2 ** 31 - 1


def text(W, s):
    return slen(W, s), sch(W, s)


# ---- construction ---------------------------------------------------------------------------------------
def raw_string(S):
    return S.obj(24, 'p')


def owned(W, p, n, ch):
    """the memory at p becomes a string that owns a copy of the characters"""
    W.builds(p, NewStr(n, ch))


def cstring(S, name):
    """a zero-terminated text (zeros may occur earlier, too)"""
    n = S.int(name + '.size', 'i32', 0, MAXLEN, size=True)
    b = S.buf('s_' + name, 'i32', n + 1)
    S.terminate(b, n)
    return b, n


def wlen(W, s):
    rd = W.reader(s, 'i32')
    n = W.blocksize(s) // 4
    return W.first(0, n, lambda k: rd(k) == 0)


@contract('String.ctor.chars', P, STR + 'C2EPKw', 'void')
class _:
    def setup(S):
        return [raw_string(S), cstring(S, 's')[0]]

    def spec(W, p, s):
        W.builds(p, NewObj('String', {8: ('ptr', s), 16: ('i32', wlen(W, s)), 20: ('u8', 0)}))


@contract('String.ctor.part', P, STR + 'C2EPKwii', 'void', requires=lambda W, p, s, start, length: [('there are that many characters', W.Or(W.is_null(s), W.blocksize(s) >= 4 * (start + length)))])
class _:
    def setup(S):
        if S.choose('null', [0, 1]):
            return [raw_string(S), S.null(), S.int('start'), S.int('length')]
        b, n = cstring(S, 's')
        start, length = S.int('start'), S.int('length')
        S.assume(start + length <= n)
        return [raw_string(S), b, start, length]

    def spec(W, p, s, start, length):
        if W.is_null(s):
            W.hidden.add(p.b)
            W.throw('ArgumentOutOfRangeException')
        m = wlen(W, s)
        if W.Or(start < 0, start > m):
            W.hidden.add(p.b)
            W.throw('ArgumentOutOfRangeException')
        if length < 0:
            length = m - start
        rd = W.reader(s, 'i32')
        W.small(length)
        owned(W, p, length, lambda k: rd(start + k))


@contract('String.ctor.array', P, STR + 'C2EPNS_5ArrayEii', 'void', weight=2)
class _:
    def setup(S):
        return [raw_string(S), chararr(S), S.int('start'), S.int('length')]

    def spec(W, p, a, start, length):
        if W.is_null(a):
            return owned(W, p, 0, lambda k: 0)
        n = alen(W, a)
        if length < 0:
            length = n
        if length == 0:
            return owned(W, p, 0, lambda k: 0)
        start = W.max(start, 0)
        if length > n - start:
            W.hidden.add(p.b)
            W.throw('ArgumentOutOfRangeException')
        if W.ld(a, 8, 'i32') != DT['Char']:
            W.hidden.add(p.b)
            W.throw('ArgumentOutOfRangeException')
        if W.ld(a, 24, 'i32') != 1:
            W.hidden.add(p.b)
            W.throw('RankException')
        rd = W.reader(adata(W, a), 'i32')
        owned(W, p, length, lambda k: rd(start + k))


@contract('String.ctor.repeat', P, STR + 'C2Ewi', 'void')
class _:
    setup = lambda S: [raw_string(S), S.int('c'), S.int('n')]

    def spec(W, p, c, n):
        if n < 0:
            W.hidden.add(p.b)
            W.throw('ArgumentOutOfRangeException')
        W.small(n)
        owned(W, p, n, lambda k: c)


# ---- parts ------------------------------------------------------------------------------------------------
def part(W, s, start, n):
    rd = sch(W, s)
    return NewStr(n, lambda k: rd(start + k))


@contract('String.Substring', P, STR + '9SubstringEii', 'ptr')
class _:
    setup = lambda S: [string(S, 's'), S.int('start'), S.int('length')]

    def spec(W, s, start, length):
        n = slen(W, s)
        if W.Or(start < 0, start > n):
            W.throw('ArgumentOutOfRangeException')
        if length < 0:
            length = n - start
        if start > n - length:
            W.throw('ArgumentOutOfRangeException')
        return part(W, s, start, length)


@contract('String.Remove', P, STR + '6RemoveEii', 'ptr', uses=['SB.ctor.text', 'SB.Remove', 'SB.ToString', 'SB.dtor'])
class _:
    setup = lambda S: [string(S, 's'), S.int('start'), S.int('count')]

    def spec(W, s, start, count):
        n, rd = text(W, s)
        if count < 0:
            count = W.wrap(32, n - start)
        if W.Or(start < 0, count < 0, count > n - start):
            W.throw('ArgumentOutOfRangeException')
        return NewStr(n - count, lambda k: W.If(k < start, rd(k), rd(k + count)))


contract('String.Copy', P, STR + '4CopyEPS0_', 'ptr', setup=lambda S: [nstring(S, 's')], spec=lambda W, s: copy(W, s))


def copy(W, s):
    if W.is_null(s):
        W.throw('ArgumentNullException')
    return NewStr(*text(W, s))


@contract('String.ToCharArray', P, STR + '11ToCharArrayEii', 'ptr')
class _:
    setup = lambda S: [string(S, 's'), S.int('start'), S.int('length')]

    def spec(W, s, start, length):
        n, rd = text(W, s)
        if start < 0:
            W.throw('ArgumentOutOfRangeException')
        if length < 0:
            length = W.wrap(32, n - start)
        if W.Or(start > n - length, length < 0):
            W.throw('ArgumentOutOfRangeException')
        return NewArr(DT['Char'], [length, -1, -1], 1, length, 4, 'i32', lambda k: rd(start + k))


@contract('String.CopyTo', P, STR + '6CopyToEiPNS_5ArrayEii', 'void')
class _:
    setup = lambda S: [string(S, 's'), S.int('start'), chararr(S), S.int('to'), S.int('count')]

    def spec(W, s, start, a, to, count):
        if W.is_null(a):
            W.throw('ArgumentNullException')
        any_check(W, a)
        n, rd = text(W, s)
        if W.Or(count < 0, start < 0, count > n - start, to < 0, to > alen(W, a) - count):
            W.throw('ArgumentNullException')
        W.set_region(adata(W, a), 'i32', to, count, lambda k: rd(start + (k - to)))


@contract('String.FormatString', P, STR + '12FormatStringEPwi', 'i32')
class _:
    def setup(S):
        size = S.int('size', 'i32', 0, 2 ** 29, size=True)
        return [string(S, 's'), S.buf('w', 'i32', size), size]

    def spec(W, s, w, size):
        n, rd = text(W, s)
        if size <= n:
            W.throw('IndexOutOfRangeException')
        W.set_region(w, 'i32', 0, n, rd)
        W.st_(w, 4 * n, 'i32', 0)
        return n


# ---- trimming ----------------------------------------------------------------------------------------------
SPACES = [0x9, 0xA, 0xB, 0xC, 0xD, 0x20, 0xA0, 0x2000, 0x2001, 0x2002, 0x2003, 0x2004, 0x2005, 0x2006, 0x2007, 0x2008, 0x2009, 0x200A, 0x200B, 0x3000, 0xFEFF]


def trimmed(W, s, inset, left, right):
    n, rd = text(W, s)
    a, b = 0, n
    if left:
        a = W.first(0, n, lambda k: W.Not(inset(rd(k))))
        if a is None:
            a = n
    if right:
        b = W.last(a, n, lambda k: W.Not(inset(rd(k))))
        b = a if b is None else b + 1
    return part(W, s, a, b - a)


def space(W):
    return lambda c: W.Or(*[c == x for x in SPACES])


def among(W, rd, m):
    return lambda c: W.member(rd, 0, m, c)


contract('String.TrimHelper', P, STR + '10TrimHelperEPwibb', 'ptr', requires=lambda W, s, sep, m, l, r: [('there are that many separators', W.And(m >= 0, W.blocksize(sep) >= 4 * m))],
         setup=lambda S: trim_setup(S), spec=lambda W, s, sep, m, l, r: trimmed(W, s, among(W, W.reader(sep, 'i32'), m), l, r), opts={'args': ['ptr', 'ptr', 'i32', 'bool', 'bool']}, weight=2)


def trim_setup(S):
    m = S.int('m', 'i32', 0, 2 ** 29, size=True)
    return [string(S, 's'), S.buf('sep', 'i32', m), m, S.bool('left'), S.bool('right')]


def trim_array(W, s, a, left, right, rank_first=False):
    if W.is_null(a):
        return trimmed(W, s, space(W), left, right)
    m = alen(W, a)
    if m == 0:
        return trimmed(W, s, space(W), left, right)
    if W.ld(a, 8, 'i32') != DT['Char']:
        W.throw('ArgumentOutOfRangeException')
    if W.ld(a, 24, 'i32') != 1:
        W.throw('RankException')
    return trimmed(W, s, among(W, W.reader(adata(W, a), 'i32'), m), left, right)


HELP = ['String.TrimHelper']
contract('String.Trim', P, STR + '4TrimEv', 'ptr', setup=lambda S: [string(S, 's')], spec=lambda W, s: trimmed(W, s, space(W), True, True))
for _n, _f, _l, _r in (('Trim.set', '4TrimEPNS_5ArrayE', True, True), ('TrimStart', '9TrimStartEPNS_5ArrayE', True, False), ('TrimEnd', '7TrimEndEPNS_5ArrayE', False, True)):
    contract('String.' + _n, P, STR + _f, 'ptr', setup=lambda S: [string(S, 's'), chararr(S)], spec=(lambda l, r: lambda W, s, a: trim_array(W, s, a, l, r))(_l, _r), uses=HELP)
contract('String.TrimHelper.set', P, STR + '10TrimHelperEPNS_5ArrayEbb', 'ptr', setup=lambda S: [string(S, 's'), chararr(S), S.bool('left'), S.bool('right')], spec=trim_array, uses=HELP)


# ---- padding, inserting, mapping -------------------------------------------------------------------------------
def pad(W, s, width, c, left):
    n, rd = text(W, s)
    if width < 0:
        W.throw('ArgumentOutOfRangeException')
    if width <= n:
        return s
    W.small(width)
    m = width - n
    if left:
        return NewStr(width, lambda k: W.If(k < m, c, rd(k - m)))
    return NewStr(width, lambda k: W.If(k < n, rd(k), c))


PADS = ['SB.ctor.cap', 'SB.Append.repeat', 'SB.Append.object', 'SB.Append.string', 'SB.ToString', 'SB.dtor']
contract('String.PadLeft', P, STR + '7PadLeftEiw', 'ptr', setup=lambda S: [string(S, 's'), S.int('width'), S.int('c')], spec=lambda W, s, w, c: pad(W, s, w, c, True), uses=PADS)
contract('String.PadRight', P, STR + '8PadRightEiw', 'ptr', setup=lambda S: [string(S, 's'), S.int('width'), S.int('c')], spec=lambda W, s, w, c: pad(W, s, w, c, False), uses=PADS)


@contract('String.Insert', P, STR + '6InsertEiPS0_', 'ptr', uses=['SB.ctor.text', 'SB.Insert.string', 'SB.ToString', 'SB.dtor'])
class _:
    setup = lambda S: [string(S, 's'), S.int('index'), nstring(S, 'value')]

    def spec(W, s, index, v):
        if W.is_null(v):
            W.throw('ArgumentNullException')
        n, rd = text(W, s)
        if W.Or(index < 0, index > n):
            W.throw('ArgumentOutOfRangeException')
        m, new = text(W, v)
        return NewStr(n + m, lambda k: W.If(k < index, rd(k), W.If(k < index + m, new(k - index), rd(k - m))))


def mapped(W, s, f):
    n, rd = text(W, s)
    return NewStr(n, lambda k: f(rd(k)))


for _n, _f, _c in (('ToLower', '7ToLowerEv', 'towlower'), ('ToUpper', '7ToUpperEv', 'towupper'), ('ToLowerInvariant', '16ToLowerInvariantEv', 'towlower'), ('ToUpperInvariant', '16ToUpperInvariantEv', 'towupper')):
    contract('String.' + _n, P, STR + _f, 'ptr', setup=lambda S: [string(S, 's')], spec=(lambda c: lambda W, s: mapped(W, s, lambda x: W.cfn(c, x)))(_c))
contract('String.Replace.char', [P, 'P16'], STR + '7ReplaceEww', 'ptr', setup=lambda S: [string(S, 's'), S.int('x'), S.int('y')],
         spec=lambda W, s, x, y: mapped(W, s, lambda c: W.If(c == x, y, c)), uses=['SB.ctor.text', 'SB.Replace.char', 'SB.ToString', 'SB.dtor'])
contract('String.ToString', P, STR + '8ToStringEv', 'ptr', setup=lambda S: [string(S, 's')], spec=lambda W, s: s)


# ---- concatenation ------------------------------------------------------------------------------------------------
@contract('String.Concat', P, STR + '6ConcatEPNS_6ObjectES2_S2_S2_S2_S2_S2_', 'ptr', uses=['SB.ctor', 'SB.Append.object', 'SB.ToString', 'SB.dtor'], opts={'abstract_buffers': True}, weight=2)
class _:
    def setup(S):
        k = S.choose('given', [[0] * 7] + [[1] + [m >> i & 1 for i in range(6)] for m in range(64)])
        return [string(S, 'o%d' % i) if g else S.null() for i, g in enumerate(k)]

    def spec(W, *os):
        if W.is_null(os[0]):
            W.throw('ArgumentNullException')
        n, ch = 0, None
        for o in os:
            if W.is_null(o):
                continue
            m, rd = object_text(W, o)
            if m > I32 - n:
                W.throw('ArgumentOutOfRangeException')
            ch = rd if ch is None else joined(W, ch, n, rd)
            n = n + m
        return NewStr(n, ch)


def joined(W, a, n, b):
    return lambda k: W.If(k < n, a(k), b(k - n))


# ---- joining: arrays of at most three objects, texts of any length ----------------------------------------------------------
def listed(S, joining):
    """(array, start, count)"""
    n = S.choose('n', [0, 1, 2, 3])
    kinds = [['string'] * n] + ([[['null', 'string'][m >> i & 1] for i in range(n)] for m in range(2 ** n - 1)] if n else []) + ([['Int32'] * n] if n == 1 else [])
    shape = S.choose('elements', list(range(len(kinds))))
    items = [S.null() if k == 'null' else string(S, 'e%d' % i) if k == 'string' else box(S, 'e%d' % i, 'Int32') for i, k in enumerate(kinds[shape])]
    dt = S.choose('type', ['Object', 'String', 'Int32'] if n == 2 and shape == 0 else ['Object'])
    start, count = 0, -1
    if joining and shape == 0:
        start = S.choose('start', list(range(n + 1)) + ['bad'])
        if start == 'bad':
            start, count = S.int('from'), S.int('amount')
            S.assume(start < 0 or (count >= 0 and count > n - start))
        else:
            count = S.choose('count', list(range(-1, n - start + 1)))
    return objects(S, 'a', items, dt), start, count


def catenated(W, items):
    n, ch = 0, lambda k: 0
    for o in items:
        m, rd = o if isinstance(o, tuple) else object_text(W, o)
        if m > I32 - n:
            W.throw('ArgumentOutOfRangeException')
        ch = joined(W, ch, n, rd)
        n = n + m
    return NewStr(n, ch)


def elements(W, a):
    return [W.ld(W.ld(a, 32, 'ptr'), 8 * i, 'ptr') for i in range(alen(W, a))]


UPTO3 = 'arrays of at most three elements, each null, a string of any length or a boxed Int32'


@contract('String.Concat.array', P, STR + '6ConcatEPNS_5ArrayE', 'ptr', uses=['SB.ctor', 'SB.Append.object', 'SB.ToString', 'SB.dtor'], bounded=UPTO3,
          opts={'abstract_buffers': True, 'unroll_all': True, 'symbolic': True})
class _:
    def setup(S):
        return [S.null() if S.choose('null', [0, 1]) else listed(S, False)[0]]

    def spec(W, a):
        if W.is_null(a) or W.ld(a, 8, 'i32') == DT['Int32']:
            W.throw('ArgumentNullException')
        return catenated(W, elements(W, a))


def join_spec(W, sep, a, start, count):
    if W.is_null(a):
        W.throw('ArgumentNullException')
    n = alen(W, a)
    if n == 0:
        return NewStr(0, lambda k: 0)
    if W.ld(a, 8, 'i32') == DT['Int32'] or start < 0:
        W.throw('ArgumentNullException')
    if count < 0:
        count = n - start
    if count > n - start:
        W.throw('ArgumentNullException')
    items = []
    for i, o in enumerate(elements(W, a)[start:start + count]):
        items += ([sep] if i else []) + [o]
    return catenated(W, items)


contract('String.Join.string', P, STR + '4JoinEPS0_PNS_5ArrayEii', 'ptr', uses=['SB.ctor', 'SB.Append.object', 'SB.Append.string', 'SB.ToString', 'SB.dtor'], bounded=UPTO3,
         opts={'abstract_buffers': True, 'unroll_all': True, 'symbolic': True},
         setup=lambda S: [nstring(S, 'separator')] + ([S.null(), 0, 0] if S.choose('null', [0, 1]) else list(listed(S, True))), spec=join_spec)
contract('String.Join.char', P, STR + '4JoinEwPNS_5ArrayEii', 'ptr', uses=['SB.ctor', 'SB.Append.object', 'SB.Append.char', 'SB.ToString', 'SB.dtor'], bounded=UPTO3,
         opts={'abstract_buffers': True, 'unroll_all': True, 'symbolic': True},
         setup=lambda S: [S.int('separator')] + ([S.null(), 0, 0] if S.choose('null', [0, 1]) else list(listed(S, True))), spec=lambda W, c, a, start, count: join_spec(W, (1, lambda k: c), a, start, count))


@contract('String.dtor', P, STR + 'D2Ev', 'void')
class _:
    """releases the characters if they are the string's own"""
    def setup(S):
        s = string(S, 's')
        S.set(s, 20, 'u8', S.choose('owned', [0, 1]))
        return [s]

    def spec(W, s):
        W.hidden.add(s.b)
        if W.ld(s, 20, 'u8'):
            W.free(sdata(W, s))
