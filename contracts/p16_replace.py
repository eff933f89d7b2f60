"""Replacing substrings."""
from engine.verify import contract
from engine.mem import Ptr
import z3
from engine.terms import *
from engine.world import mkn
from .kinds import *
from .sb import *
from .p15_builder import nstring, text_of

SB = '_ZN13DotnetLibrary13StringBuilder'
STR = '_ZN13DotnetLibrary6String'


def scan_hints(R):
    """loop invariant candidates: after i steps of the scan a loop variable has moved as the old position, the new position,
    the growth or the number of matches (times its element size for pointers)"""
    quantities = [('position in the old text', lambda n: isub(R.P(n), R.start)), ('position in the new text', lambda n: isub(R.O(n), R.start)),
                  ('growth', lambda n: isub(R.total, R.V(R.P(n)))), ('matches', lambda n: isub(R.C(R.start), R.C(R.P(n)))),
                  ('matches left', lambda n: isub(R.C(R.P(n)), R.C(R.start)))]

    def hint(L):
        out = []
        for x in L.keys:
            v, i = L.hv.get(x), L.init[x]
            if x in L.constant or L.stride.get(x) is not None or x in L.delay or not isinstance(v, (int, z3.ExprRef, Ptr)) or isinstance(v, (bool, z3.BoolRef)) or not isinstance(i, (int, z3.ExprRef, Ptr)):
                continue
            off = lambda t: t.off if isinstance(t, Ptr) else t
            for what, q in quantities:
                for f in ((4, 1) if isinstance(v, Ptr) else (1,)):
                    out.append(('%s moves as the %s%s' % (x, what, ' x %d' % f if f > 1 else ''),
                                lambda hv, n, st, x=x, q=q, f=f, i=i, off=off: INT.eq(isub(off(hv[x]), off(i)), imul(f, q(n)))))
        return out
    return hint


def follow(S, b, s, r, start, count):
    """let the loops of the code be checked against the scan that defines the result"""
    if not S.symbolic:
        return None
    n0, old = blen(S, b), S.closed(bch(S, b))
    m, k = slen(S, s), slen(S, r) if not S.is_null(r) else 0
    S.rewrite(old, n0, sch(S, s), m, text_of(S, r)[1], k, start, count)
    R = S.last_rewrite
    S.hints = [scan_hints(R)]

    def inv(W, p):
        if p.b != b.b:
            return None
        def ch(q, L, n):
            i = mkn(R.O(raw(n)))
            return W.If(q < i, mkn(R.out(raw(q))), old(q + n0 - L))
        return ch, lambda n: n0 + mkn(isub(R.total, R.V(R.P(raw(n)))))
    S.loop_builder = inv
    return R


@contract('StringBuilder.CountSubStrings', ['P16', 'P13'], SB + '15CountSubStringsEPNS_6StringEii', 'i32', helper=True, optional=True, timeout=200, weight=9,
          requires=lambda W, b, s, start, length: [('window inside the text', W.And(start >= 0, length >= 0, start <= blen(W, b) - length)), ('searched text is not empty', slen(W, s) >= 1)])
class _:
    def setup(S):
        b = builder(S, 'b')
        m = S.int('m', 'i32', 1, MAXLEN, size=True)
        s = string(S, 's', m)
        start, length = S.int('start', 'i32', 0), S.int('length', 'i32', 0)
        S.assume(start <= blen(S, b) - length)
        follow(S, b, s, S.null(), start, length)
        return [b, s, start, length]

    def spec(W, b, s, start, length):
        m = slen(W, s)
        C = W.greedy(bch(W, b), sch(W, s), m, start + length - m + 1)
        return C(start)


def replaced(W, b, s, r, start=None, count=None):
    n, old = blen(W, b), bch(W, b)
    if start is None:
        start, count = 0, n
    if W.Or(start < 0, start > n, count < 0, start > n - count):
        W.throw('ArgumentOutOfRangeException')
    if W.is_null(s):
        W.throw('ArgumentOutOfRangeException')
    m = slen(W, s)
    if m == 0:
        W.throw('ArgumentOutOfRangeException')
    k, rr = text_of(W, r)
    n2, out = W.rewrite(old, n, sch(W, s), m, rr, k, start, count)
    if n2 > bmax(W, b):
        W.throw('ArgumentOutOfRangeException')
    sbset(W, b, n2, out)
    return b


def room(W, b, s, r, start, count):
    m, (k, rr) = slen(W, s), text_of(W, r)
    return W.rewrite(bch(W, b), blen(W, b), sch(W, s), m, rr, k, start, count)[0] <= bcap(W, b)


@contract('StringBuilder.ReplaceSubString', 'P16', SB + '16ReplaceSubStringEPNS_6StringES2_ii', 'void', helper=True, optional=True, timeout=300, weight=9,
          requires=lambda W, b, s, r, start, count: [('window inside the text', W.And(start >= 0, count >= 0, start <= blen(W, b) - count)), ('searched text is not empty', slen(W, s) >= 1),
                                                     ('the result fits', room(W, b, s, r, start, count))])
class _:
    def setup(S):
        b = builder(S, 'b')
        m = S.int('m', 'i32', 1, MAXLEN, size=True)
        s, r = string(S, 's', m), string(S, 'r')
        start, count = S.int('start', 'i32', 0), S.int('count', 'i32', 0)
        S.assume(start <= blen(S, b) - count)
        follow(S, b, s, r, start, count)
        S.assume(room(S, b, s, r, start, count))
        return [b, s, r, start, count]

    def spec(W, b, s, r, start, count):
        replaced(W, b, s, r, start, count)


@contract('SB.Replace.part', ['P16', 'P15'], SB + '7ReplaceEPNS_6StringES2_ii', 'ptr', timeout=600, weight=9, uses=['StringBuilder.CountSubStrings', 'StringBuilder.ReplaceSubString', 'SB.EnsureCapacity'], opts={'prove_lemmas': 'rewrite'})
class _:
    def setup(S):
        b = builder(S, 'b')
        s, r = nstring(S, 's'), nstring(S, 'r')
        start, count = S.int('start'), S.int('count')
        if not S.is_null(s):
            follow(S, b, s, r, start, count)
        return [b, s, r, start, count]

    spec = replaced


contract('SB.Replace.text', ['P16', 'P15'], SB + '7ReplaceEPNS_6StringES2_', 'ptr', setup=lambda S: [builder(S, 'b'), nstring(S, 's'), nstring(S, 'r')], spec=replaced, uses=['SB.Replace.part'])


@contract('String.Replace.text', ['P16', 'P14'], STR + '7ReplaceEPS0_S1_', 'ptr', uses=['SB.ctor.text', 'SB.Replace.text', 'SB.ToString', 'SB.dtor'])
class _:
    def setup(S):
        return [string(S, 't'), nstring(S, 's'), nstring(S, 'r')]

    def spec(W, t, s, r):
        if W.is_null(s):
            W.throw('ArgumentOutOfRangeException')
        m = slen(W, s)
        if m == 0:
            W.throw('ArgumentOutOfRangeException')
        k, rr = text_of(W, r)
        n2, out = W.rewrite(sch(W, t), slen(W, t), sch(W, s), m, rr, k, 0, slen(W, t))
        if n2 > 2 ** 31 - 1:
            W.throw('ArgumentOutOfRangeException')
        return NewStr(n2, out)
