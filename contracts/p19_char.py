"""Character classification and parsing."""
from engine.verify import contract
from .kinds import *

P = 'P19'
CV = '_ZN13DotnetLibrary9CharValue'


def cls(name):
    return lambda W, c: W.cfn(name, c) != 0


def isdigit(W, c):
    return W.And(c >= 48, c <= 57)


def isalnum(W, c):
    return W.Or(W.cfn('iswalpha', c) != 0, isdigit(W, c))


KINDS = {'IsControl': cls('iswcntrl'), 'IsDigit': isdigit, 'IsLetter': cls('iswalpha'), 'IsLetterOrDigit': isalnum, 'IsLower': cls('iswlower'), 'IsNumber': isdigit,
         'IsPunctuation': cls('iswpunct'), 'IsSeparator': cls('iswspace'), 'IsUpper': cls('iswupper'), 'IsWhiteSpace': cls('iswspace')}


def anystr(S):
    return [S.null() if S.choose('null', [0, 1]) else string(S, 's'), S.int('index')]


def char_at(W, s, i):
    if W.is_null(s):
        W.throw('ArgumentNullException')
    if W.Or(i < 0, i >= slen(W, s)):
        W.throw('ArgumentOutOfRangeException')
    return sch(W, s)(i)


for n, f in KINDS.items():
    def mk(n, f):
        contract('Char.' + n, P, '%s%d%sEw' % (CV, len(n), n), 'bool', setup=lambda S: [S.int('c')], spec=f)
        contract('Char.%s.str' % n, P, '%s%d%sEPNS_6StringEi' % (CV, len(n), n), 'bool', setup=anystr, spec=lambda W, s, i: f(W, char_at(W, s, i)))
    mk(n, f)


def numeric(W, c):
    return W.i2f(c - 48, 64) if isdigit(W, c) else W.fc(-1.0, 64)


contract('Char.GetNumericValue', P, CV + '15GetNumericValueEw', 'f64', setup=lambda S: [S.int('c')], spec=numeric)
contract('Char.GetNumericValue.str', P, CV + '15GetNumericValueEPNS_6StringEi', 'f64', setup=anystr, spec=lambda W, s, i: numeric(W, char_at(W, s, i)))
contract('Char.ToLower', P, CV + '7ToLowerEw', 'i32', setup=lambda S: [S.int('c')], spec=lambda W, c: W.cfn('towlower', c))
contract('Char.ToUpper', P, CV + '7ToUpperEw', 'i32', setup=lambda S: [S.int('c')], spec=lambda W, c: W.cfn('towupper', c))


@contract('Char.Parse', P, CV + '5ParseEPNS_6StringE', 'i32')
class _:
    def setup(S):
        return [S.null() if S.choose('null', [0, 1]) else string(S, 's')]

    def spec(W, s):
        if W.is_null(s):
            W.throw('ArgumentNullException')
        if slen(W, s) != 1:
            W.throw('FormatException')
        return sch(W, s)(0)


@contract('Char.TryParse', P, CV + '8TryParseEPNS_6StringERw', 'bool')
class _:
    def setup(S):
        return [S.null() if S.choose('null', [0, 1]) else string(S, 's'), S.buf('out', 'i32', 1)]

    def spec(W, s, out):
        ok = not W.is_null(s) and slen(W, s) == 1
        c = sch(W, s)(0) if ok else 0
        W.set_region(out, 'i32', 0, 1, lambda k: c)
        return ok


# ---- parsing a Boolean: True or False in any letter case ------------------------------------------------------------------
@contract('Boolean.Parse', P, '_ZN13DotnetLibrary12BooleanValue5ParseEPNS_6StringE', 'bool', assumes=['towlower(0) is 0 and towlower(c) is not 0 for other c'])
class _:
    def setup(S):
        if S.choose('null', [0, 1]):
            return [S.null()]
        S.fold0()
        if S.choose('word', [0, 1]):
            # any string of the length of a word
            n = S.choose('length', [4, 5])
            return [string(S, 's', n)]
        return [string(S, 's')]

    def spec(W, s):
        if W.is_null(s):
            W.throw('ArgumentException')
        low = lambda x: W.cfn('towlower', x)
        n, ch = slen(W, s), sch(W, s)
        for word in ('True', 'False'):
            if n == len(word) and W.And(*[low(ch(k)) == low(ord(c)) for k, c in enumerate(word)]):
                return word == 'True'
        W.throw('FormatException')
