"""Exception objects: what constructing one yields (this also discharges the assumption that throwing touches the new object only)."""
from engine.verify import contract
from .kinds import *
from .sb import pick

P = 'P22'
N = '_ZN13DotnetLibrary'
OPT = {'check_exceptions': True}
TEXTS = {'IndexOutOfRangeException': 'Index out of range', 'ArgumentNullException': 'Arguement is null', 'RankException': 'Rank exception', 'ArgumentOutOfRangeException': 'Arguement out of range',
         'ArgumentException': 'Bad Arguement', 'NotImplementedException': 'Functionality not implemented', 'InvalidCastException': 'Invalid Cast', 'InvalidOperationException': 'Invalid Operation',
         'FormatException': 'Bad Format', 'OverflowException': 'Overflow', 'ThrowMinMaxException': 'Overflow', 'ArithmeticException': 'Overflow', 'DivideByZeroException': 'Divide by Zero'}


def text(W, t):
    return NewStr(len(t), lambda k: pick(W, t, k))


def ctor(cls):
    @contract(cls + '.ctor', P, '%s%d%sC2Ev' % (N, len(cls), cls), 'void', opts=OPT, optional=True)
    class _:
        def setup(S):
            return [S.obj(24, 'e')]

        def spec(W, e):
            W.builds(e, NewObj(cls, {8: ('ptr', text(W, TEXTS[cls])), 16: ('ptr', W.null())}))


for c in TEXTS:
    ctor(c)


def other(S, name):
    """null, or another exception"""
    return S.obj(24, name, 'Exception') if S.choose(name, [0, 1]) else S.null()


def message(S):
    return string(S, 'm') if S.choose('message', [0, 1]) else S.null()


def exc(S):
    e = S.obj(24, 'e', 'Exception')
    S.set(e, 8, 'ptr', message(S))
    S.set(e, 16, 'ptr', other(S, 'inner'))
    return e


@contract('Exception.ctor', P, N + '9ExceptionC2Ev', 'void', opts=OPT, optional=True)
class _:
    setup = lambda S: [S.obj(24, 'e')]

    def spec(W, e):
        W.builds(e, NewObj('Exception', {8: ('ptr', W.null()), 16: ('ptr', W.null())}))


@contract('Exception.ctor.message', P, N + '9ExceptionC2EPNS_6StringE', 'void', opts=OPT)
class _:
    setup = lambda S: [S.obj(24, 'e'), message(S)]

    def spec(W, e, m):
        W.builds(e, NewObj('Exception', {8: ('ptr', m), 16: ('ptr', W.null())}))


@contract('Exception.ctor.inner', P, N + '9ExceptionC2EPNS_6StringEPS0_', 'void', opts=OPT, optional=True)
class _:
    setup = lambda S: [S.obj(24, 'e'), message(S), other(S, 'inner')]

    def spec(W, e, m, inner):
        W.builds(e, NewObj('Exception', {8: ('ptr', m), 16: ('ptr', inner)}))


contract('Exception.get_Message', P, N + '9Exception11get_MessageEv', 'ptr', setup=lambda S: [exc(S)], spec=lambda W, e: W.ld(e, 8, 'ptr'), opts=OPT, optional=True)
contract('Exception.get_InnerException', P, N + '9Exception18get_InnerExceptionEv', 'ptr', setup=lambda S: [exc(S)], spec=lambda W, e: W.ld(e, 16, 'ptr'), opts=OPT, optional=True)
contract('Exception.GetRawDataType', P, N + '9Exception14GetRawDataTypeEv', 'i32', setup=lambda S: [exc(S)], spec=lambda W, e: DT['Object'], opts=OPT)
