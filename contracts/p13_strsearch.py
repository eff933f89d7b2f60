"""String searching, comparison and equality."""
from engine.verify import contract
from .kinds import *

P = 'P13'
STR = '_ZN13DotnetLibrary6String'


# ---- characters -----------------------------------------------------------------------------------
def first_char(W, t, c, start, count):
    n = slen(W, t)
    if W.Or(start < 0, count < 0, count > n - start):
        W.throw('ArgumentNullException')
    rd = sch(W, t)
    r = W.first(start, start + count, lambda k: rd(k) == c)
    return -1 if r is None else r


contract('String.IndexOf.char3', P, STR + '7IndexOfEwii', 'i32', setup=lambda S: [string(S, 't'), S.int('c'), S.int('start'), S.int('count')], spec=first_char)
contract('String.IndexOf.char2', P, STR + '7IndexOfEwi', 'i32', setup=lambda S: [string(S, 't'), S.int('c'), S.int('start')],
         spec=lambda W, t, c, start: first_char(W, t, c, start, W.wrap(32, slen(W, t) - start)))
contract('String.IndexOf.char1', P, STR + '7IndexOfEw', 'i32', setup=lambda S: [string(S, 't'), S.int('c')],
         spec=lambda W, t, c: first_char(W, t, c, 0, slen(W, t)))


def window(W, n, start, count):
    """defaults of backward searches"""
    if start < 0:
        start = n - 1
    if count < 0:
        count = start + 1
    return start, count


def lastwindow(W, n, start, count):
    """the window a backwards search covers; nothing is found in an empty string"""
    if n == 0:
        return None, None
    if start >= n:
        W.throw('ArgumentOutOfRangeException')
    start, count = window(W, n, start, count)
    if count > start + 1:
        W.throw('ArgumentOutOfRangeException')
    return start, count


@contract('String.LastIndexOf.char', P, STR + '11LastIndexOfEwii', 'i32')
class _:
    def setup(S):
        t = string(S, 't')
        return [t, S.int('c'), S.int('start'), S.int('count')]

    def spec(W, t, c, start, count):
        n = slen(W, t)
        start, count = lastwindow(W, n, start, count)
        if start is None:
            return -1
        rd = sch(W, t)
        r = W.last(start - count + 1, start + 1, lambda k: rd(k) == c)
        return -1 if r is None else r


def anyset(W, t, arr):
    rd = sch(W, t)
    an = alen(W, arr)
    ad = W.reader(adata(W, arr), 'i32')
    return lambda k: W.member(ad, 0, an, rd(k))


def chararr(S):
    """null, or an array of any rank, of characters or something else"""
    k = S.choose('any', ['chars', 'null', '2d', 'ints'])
    if k == 'null':
        return S.null()
    return array(S, 'any', 'Int32' if k == 'ints' else 'Char', 2 if k == '2d' else 1)


def any_check(W, arr):
    if W.ld(arr, 24, 'i32') != 1:
        W.throw('RankException')
    if W.ld(arr, 8, 'i32') != DT['Char']:
        W.throw('ArgumentNullException')


def index_any(W, t, arr, start, count):
    if W.is_null(arr):
        W.throw('ArgumentNullException')
    n = slen(W, t)
    if W.Or(start < 0, count < 0, count > n - start):
        W.throw('ArgumentNullException')
    any_check(W, arr)
    r = W.first(start, start + count, anyset(W, t, arr))
    return -1 if r is None else r


contract('String.IndexOfAny3', P, STR + '10IndexOfAnyEPNS_5ArrayEii', 'i32', setup=lambda S: [string(S, 't'), chararr(S), S.int('start'), S.int('count')], spec=index_any, weight=2)
contract('String.IndexOfAny2', P, STR + '10IndexOfAnyEPNS_5ArrayEi', 'i32', setup=lambda S: [string(S, 't'), chararr(S), S.int('start')],
         spec=lambda W, t, a, start: index_any(W, t, a, start, W.wrap(32, slen(W, t) - start)), weight=2)
contract('String.IndexOfAny1', P, STR + '10IndexOfAnyEPNS_5ArrayE', 'i32', setup=lambda S: [string(S, 't'), chararr(S)],
         spec=lambda W, t, a: index_any(W, t, a, 0, slen(W, t)), weight=2)


@contract('String.LastIndexOfAny', P, STR + '14LastIndexOfAnyEPNS_5ArrayEii', 'i32', weight=2)
class _:
    def setup(S):
        return [string(S, 't'), chararr(S), S.int('start'), S.int('count')]

    def spec(W, t, arr, start, count):
        if W.is_null(arr):
            W.throw('ArgumentNullException')
        n = slen(W, t)
        any_check(W, arr)
        start, count = lastwindow(W, n, start, count)
        if start is None:
            return -1
        r = W.last(start - count + 1, start + 1, anyset(W, t, arr))
        return -1 if r is None else r


# ---- substrings -------------------------------------------------------------------------------------
def two(S):
    return [string(S, 't'), S.null() if S.choose('null', [0, 1]) else string(S, 's')]


def match(W, t, s):
    return W.occurs(sch(W, t), sch(W, s), slen(W, s))


def first_str(W, t, s, start, count):
    if W.is_null(s):
        W.throw('ArgumentNullException')
    n = slen(W, t)
    if W.Or(start < 0, count < 0, count > n - start):
        W.throw('ArgumentNullException')
    r = W.first(start, start + count - slen(W, s) + 1, match(W, t, s))
    return -1 if r is None else r


contract('String.IndexOf.str3', P, STR + '7IndexOfEPS0_ii', 'i32', setup=lambda S: two(S) + [S.int('start'), S.int('count')], spec=first_str)
contract('String.IndexOf.str2', P, STR + '7IndexOfEPS0_i', 'i32', setup=lambda S: two(S) + [S.int('start')],
         spec=lambda W, t, s, start: first_str(W, t, s, start, W.wrap(32, slen(W, t) - start)))
contract('String.IndexOf.str1', P, STR + '7IndexOfEPS0_', 'i32', setup=two, spec=lambda W, t, s: first_str(W, t, s, 0, slen(W, t)))


@contract('String.LastIndexOf.str', P, STR + '11LastIndexOfEPS0_ii', 'i32', weight=8, timeout=200)
class _:
    def setup(S):
        return two(S) + [S.int('start'), S.int('count')]

    def spec(W, t, s, start, count):
        if W.is_null(s):
            W.throw('ArgumentNullException')
        n = slen(W, t)
        start, count = window(W, n, start, count)
        if W.Or(start > n, count > start + 1):
            W.throw('ArgumentOutOfRangeException')
        m = slen(W, s)
        r = W.last(start - count + 1, W.min(start + 2 - m, start + 1), match(W, t, s))
        return -1 if r is None else r


# ---- comparison -------------------------------------------------------------------------------------
def sgn(W, a, b):
    return W.If(a > b, 1, W.If(a < b, -1, 0))


def compare(W, ra, rb, length, ic, ordinal):
    """the first position that decides the order"""
    low = lambda x: W.cfn('towlower', x)
    up = lambda x: W.cfn('iswupper', x) != 0
    lo = lambda x: W.cfn('iswlower', x) != 0
    if ic:
        r = W.first(0, length, lambda k: W.Or(low(ra(k)) != low(rb(k)), low(ra(k)) == 0))
        return 0 if r is None else sgn(W, low(ra(r)), low(rb(r)))
    if ordinal:
        r = W.first(0, length, lambda k: W.Or(ra(k) != rb(k), ra(k) == 0))
        return 0 if r is None else sgn(W, ra(r), rb(r))
    gt = lambda k: W.And(up(ra(k)), lo(rb(k)))
    lt = lambda k: W.And(up(rb(k)), lo(ra(k)))
    r = W.first(0, length, lambda k: W.Or(gt(k), lt(k), ra(k) != rb(k), ra(k) == 0))
    if r is None:
        return 0
    return W.If(gt(r), 1, W.If(lt(r), -1, sgn(W, ra(r), rb(r))))


ASS = ['towlower(0) is 0 and towlower(c) is not 0 for other c']


@contract('String.Compare.buf', P, STR + '7CompareEPwiS1_iibb', 'i32', opts={}, assumes=ASS)
class _:
    def setup(S):
        n, m = S.int('n', 'i32', 0, MAXLEN, size=True), S.int('m', 'i32', 0, MAXLEN, size=True)
        a, b = S.buf('s_a', 'i32', n + 1), S.buf('s_b', 'i32', m + 1)
        S.fold0()
        S.terminate(a, n)
        S.terminate(b, m)
        i, j = S.int('i', 'i32', 0), S.int('j', 'i32', 0)
        S.assume(i <= n)
        S.assume(j <= m)
        return [a, i, b, j, S.int('length'), S.bool('ic'), S.bool('ord')]

    def spec(W, a, i, b, j, length, ic, ordinal):
        ra, rb = W.reader(a, 'i32'), W.reader(b, 'i32')
        return compare(W, lambda k: ra(i + k), lambda k: rb(j + k), length, ic, ordinal)


def maybe(S, name):
    return S.null() if S.choose('null_' + name, [0, 1]) else string(S, name)


def nulls(W, a, b):
    """null comes before every string (None: neither is null)"""
    if W.is_null(a):
        return 0 if W.is_null(b) else -1
    return 1 if W.is_null(b) else None


def cmp2(ordinal):
    def spec(W, a, b, ic=False):
        r = nulls(W, a, b)
        if r is not None:
            return r
        return compare(W, sch(W, a), sch(W, b), W.max(slen(W, a), slen(W, b)), ic, ordinal)
    return spec


def cmp5(ordinal):
    def spec(W, a, i, b, j, length, ic=False):
        r = nulls(W, a, b)
        if r is not None:
            return r
        if W.Or(length < 0, i < 0, j < 0, i > slen(W, a), j > slen(W, b)):
            W.throw('ArgumentOutOfRangeException')
        ra, rb = sch(W, a), sch(W, b)
        return compare(W, lambda k: ra(i + k), lambda k: rb(j + k), length, ic, ordinal)
    return spec


def cpair(S):
    S.fold0()
    return [maybe(S, 'a'), maybe(S, 'b')]


def ijx(S):
    a, b = cpair(S)
    return [a, S.int('i'), b, S.int('j'), S.int('length')]


contract('String.Compare2', P, STR + '7CompareEPS0_S1_b', 'i32', setup=lambda S: cpair(S) + [S.bool('ic')], spec=cmp2(False), assumes=ASS)
contract('String.CompareOrdinal2', P, STR + '14CompareOrdinalEPS0_S1_', 'i32', setup=cpair, spec=cmp2(True))
contract('String.Compare5', P, STR + '7CompareEPS0_iS1_iib', 'i32', assumes=ASS, setup=lambda S: ijx(S) + [S.bool('ic')], spec=cmp5(False))
contract('String.CompareOrdinal5', P, STR + '14CompareOrdinalEPS0_iS1_ii', 'i32', setup=ijx, spec=cmp5(True))


def anyobj(S, name):
    """null, a string, or an object that is not a string"""
    k = S.choose('kind_' + name, ['str', 'null', 'box'])
    return S.null() if k == 'null' else string(S, name) if k == 'str' else box(S, name, 'Int32')


def isstr(W, o):
    return W.vtable_of(o) == '_ZTVN13DotnetLibrary6StringE'


@contract('String.CompareTo.str', P, STR + '9CompareToEPS0_', 'i32')
class _:
    def setup(S):
        return [string(S, 't'), maybe(S, 's')]

    def spec(W, t, s):
        if W.is_null(s):
            return 1
        return cmp2(False)(W, t, s)


@contract('String.CompareTo.obj', P, STR + '9CompareToEPNS_6ObjectE', 'i32')
class _:
    def setup(S):
        return [string(S, 't'), anyobj(S, 's')]

    def spec(W, t, s):
        if W.is_null(s):
            return 1
        if not isstr(W, s):
            W.throw('ArgumentException')
        return cmp2(False)(W, t, s)


# ---- equality ---------------------------------------------------------------------------------------
def equal(W, a, b):
    if W.is_null(a):
        return W.is_null(b)
    if W.is_null(b):
        return False
    n = slen(W, a)
    if n != slen(W, b):
        return False
    ra, rb = sch(W, a), sch(W, b)
    return W.all(0, n, lambda k: ra(k) == rb(k))


def equal_obj(W, a, b):
    """b is any object"""
    if W.is_null(b):
        return False
    if not isstr(W, b):
        return False
    return equal(W, a, b)


def pair(S, same=True):
    k = S.choose('alias', ['two', 'same'])
    a = string(S, 'a')
    return [a, a if k == 'same' else maybe(S, 'b')]


contract('String.Equals.str', P, STR + '6EqualsEPS0_', 'bool', setup=pair, spec=equal)
contract('String.Equals.str2', P, STR + '6EqualsEPS0_S1_', 'bool', setup=lambda S: [maybe(S, 'a'), maybe(S, 'b')], spec=equal)
contract('String.op_Inequality', P, STR + '13op_InequalityEPS0_S1_', 'bool', setup=lambda S: [maybe(S, 'a'), maybe(S, 'b')], spec=lambda W, a, b: not equal(W, a, b))
contract('String.Equals.obj', P, STR + '6EqualsEPNS_6ObjectE', 'bool', setup=lambda S: [string(S, 'a'), anyobj(S, 'b')], spec=equal_obj)
contract('String.Equals.strobj', P, STR + '6EqualsEPS0_PNS_6ObjectE', 'bool', setup=lambda S: [maybe(S, 'a'), anyobj(S, 'b')], spec=equal_obj)
contract('String.Equals.objstr', P, STR + '6EqualsEPNS_6ObjectEPS0_', 'bool', setup=lambda S: [anyobj(S, 'a'), maybe(S, 'b')],
         spec=lambda W, a, b: equal_obj(W, b, a))


# ---- prefixes, suffixes, containment, access -----------------------------------------------------------
@contract('String.StartsWith', P, STR + '10StartsWithEPS0_', 'bool', weight=3, uses=['StringBuilder.CountSubStrings'])
class _:
    setup = two

    def spec(W, t, s):
        if W.is_null(s):
            W.throw('ArgumentNullException')
        n, m = slen(W, t), slen(W, s)
        if m > n:
            return False
        ra, rb = sch(W, t), sch(W, s)
        return W.all(0, m, lambda k: ra(k) == rb(k))


@contract('String.EndsWith', P, STR + '8EndsWithEPS0_', 'bool', weight=3, uses=['StringBuilder.CountSubStrings'])
class _:
    setup = two

    def spec(W, t, s):
        if W.is_null(s):
            W.throw('ArgumentNullException')
        n, m = slen(W, t), slen(W, s)
        if m > n:
            return False
        ra, rb = sch(W, t), sch(W, s)
        return W.all(0, m, lambda k: ra(n - m + k) == rb(k))


@contract('String.Contains', P, STR + '8ContainsEPS0_', 'bool', weight=3, uses=['StringBuilder.CountSubStrings'])
class _:
    setup = two

    def spec(W, t, s):
        if W.is_null(s):
            W.throw('ArgumentNullException')
        n, m = slen(W, t), slen(W, s)
        return W.first(0, n - m + 1, match(W, t, s)) is not None


@contract('String.EndsWith.char', P, STR + '8EndsWithEw', 'bool')
class _:
    def setup(S):
        return [string(S, 't'), S.int('c')]

    def spec(W, t, c):
        n = slen(W, t)
        if n == 0:
            return False
        return sch(W, t)(n - 1) == c


@contract('String.get_Chars', P, STR + '9get_CharsEi', 'i32')
class _:
    def setup(S):
        return [string(S, 't'), S.int('i')]

    def spec(W, t, i):
        if W.Or(i < 0, i >= slen(W, t)):
            W.throw('IndexOutOfRangeException')
        return sch(W, t)(i)


contract('String.IsNullOrEmpty', P, STR + '13IsNullOrEmptyEPS0_', 'bool', setup=lambda S: [maybe(S, 't')], spec=lambda W, t: True if W.is_null(t) else slen(W, t) == 0)


@contract('String.IsNullOrWhiteSpace', P, STR + '18IsNullOrWhiteSpaceEPS0_', 'bool')
class _:
    def setup(S):
        return [maybe(S, 't')]

    def spec(W, t):
        if W.is_null(t):
            return True
        rd = sch(W, t)
        return W.all(0, slen(W, t), lambda k: W.cfn('iswspace', rd(k)) != 0)
