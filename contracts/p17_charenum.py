"""String enumeration."""
from engine.verify import contract
from .kinds import *

P = 'P17'
CE = '_ZN13DotnetLibrary14CharEnumerator'


@contract('CharEnumerator.ctor', P, CE + 'C2EPNS_6StringE', 'void')
class _:
    def setup(S):
        return [S.obj(32, 'e'), string(S, 's')]

    def spec(W, e, s):
        W.builds(e, NewObj('CharEnumerator', {8: ('i32', -1), 16: ('ptr', s), 24: ('i32', 0)}))


def setup(S):
    """class invariant: position -1 (before the first character) .. length (past the last); on a character, that character is the current one"""
    n = S.int('s.len', 'i32', 0, MAXLEN, size=True)
    s = string(S, 's', n)
    p = S.obj(32, 'e', 'CharEnumerator')
    k = S.choose('position', ['before', 'on', 'after'])
    i = -1 if k == 'before' else n if k == 'after' else S.int('index', 'i32', 0, n - 1)
    S.set(p, 8, 'i32', i)
    S.set(p, 16, 'ptr', s)
    S.set(p, 24, 'i32', sch(S, s)(i) if k == 'on' else S.int('current', 'i32'))
    return [p]


def parts(W, e):
    s = W.ld(e, 16, 'ptr')
    return W.ld(e, 8, 'i32'), s, slen(W, s)


@contract('CharEnumerator.MoveNext', P, CE + '8MoveNextEv', 'bool')
class _:
    setup = setup

    def spec(W, e):
        i, s, n = parts(W, e)
        if i + 1 < n:
            W.st_(e, 8, 'i32', i + 1)
            W.st_(e, 24, 'i32', sch(W, s)(i + 1))
            return True
        W.st_(e, 8, 'i32', n)
        return False


@contract('CharEnumerator.get_Current', P, CE + '11get_CurrentEv', 'i32')
class _:
    setup = setup

    def spec(W, e):
        i, s, n = parts(W, e)
        if W.Or(i < 0, i >= n):
            W.throw('InvalidOperationException')
        return sch(W, s)(i)


@contract('CharEnumerator.Reset', P, CE + '5ResetEv', 'void')
class _:
    setup = setup

    def spec(W, e):
        W.st_(e, 8, 'i32', -1)
        W.st_(e, 24, 'i32', 0)


@contract('String.GetEnumerator', P, '_ZN13DotnetLibrary6String13GetEnumeratorEv', 'ptr')
class _:
    def setup(S):
        return [string(S, 's')]

    def spec(W, s):
        return NewObj('CharEnumerator', {8: ('i32', -1), 16: ('ptr', s), 24: ('i32', 0)})
