"""Parsing integers."""
import z3
from engine.verify import contract
from engine.mem import Ptr
from engine.terms import *
from engine.world import mkn, raw
from .kinds import *
from .p19_char import isdigit

P = 'P09'
NS = '_ZN13DotnetLibrary'
TYPES = [('Byte', 'h', 'u8', 0, 255), ('SByte', 'a', 'i8', -128, 127), ('Int16', 's', 'i16', -2 ** 15, 2 ** 15 - 1), ('UInt16', 't', 'u16', 0, 2 ** 16 - 1),
         ('Int32', 'i', 'i32', -2 ** 31, 2 ** 31 - 1), ('UInt32', 'j', 'u32', 0, 2 ** 32 - 1), ('Int64', 'l', 'i64', -2 ** 63, 2 ** 63 - 1), ('UInt64', 'm', 'u64', 0, 2 ** 64 - 1)]
MAX = 2 ** 64 - 1


def digit_hints(V):
    """loop invariant candidates: after n steps along the text a loop variable is the number denoted by the digits passed so far,
    the same cut off at the largest word, or tells whether it was cut off"""
    def hint(L):
        out = []
        steps = []
        for x in L.keys:
            i, d = L.init.get(x), L.stride.get(x)
            if isinstance(i, Ptr) and d == 4 and L.st0.blk(i.b).name and (isinstance(i.off, int) and i.off % 4 == 0 or not isinstance(i.off, int)):
                steps.append(INT.fdivmod(i.off, 4, L.st0)[0] if not isinstance(i.off, int) else i.off // 4)
            elif not isinstance(i, Ptr) and d == 1 and isinstance(i, (int, z3.ExprRef)):
                steps.append(i)
                seen = []
                for p in L.st0.regs.values():
                    # the text may be indexed from a pointer that stays
                    if isinstance(p, Ptr) and p.b in L.st0.mem and L.st0.blk(p.b).name and not isinstance(p.off, int) and str(p.off) not in seen:
                        seen.append(str(p.off))
                        steps.append(iadd(i, INT.fdivmod(p.off, 4, L.st0)[0]))
        for x in L.keys:
            v, i = L.hv.get(x), L.init[x]
            if x in L.constant or L.stride.get(x) is not None or x in L.delay or not isinstance(v, (int, z3.ExprRef)) or not isinstance(i, (int, bool, z3.ExprRef)):
                continue
            for s in steps:
                at = lambda n, s=s: V(iadd(s, n))
                if isinstance(v, (bool, z3.BoolRef)):
                    out.append(('%s tells an overflow' % (x,), lambda hv, n, st, x=x, at=at: Iff(hv[x], ilt(MAX, at(n)))))
                    continue
                w = L.scalar_width(x)
                if w == 8:
                    out.append(('%s tells an overflow' % (x,), lambda hv, n, st, x=x, at=at: ieq(hv[x], INT.ite(ilt(MAX, at(n)), 1, 0))))
                if w == 64:
                    out.append(('%s is the number read so far' % (x,), lambda hv, n, st, x=x, at=at: word(hv[x], at(n))))
        return out
    return hint


def word(x, v):
    """x holds v, or the largest word if v is larger"""
    return And(Implies(ile(v, 2 ** 63 - 1), ieq(x, v)), Implies(And(ilt(2 ** 63 - 1, v), ile(v, MAX)), ieq(x, isub(v, 2 ** 64))), Implies(ilt(MAX, v), ieq(x, -1)))


def text(S):
    if S.choose('null', [0, 1]):
        return S.null()
    s = string(S, 's')
    if S.symbolic:
        from engine.externs import runvalue
        S.blanks()
        rd = S.closed(sch(S, s))
        S.hints = [digit_hints(runvalue(S.st, lambda k: raw(rd(mkn(k)))))]
    return s


def number(W, s):
    """(is it a decimal numeral, its value)"""
    n, ch = slen(W, s), sch(W, s)
    blank = lambda k: W.cfn('iswspace', ch(k)) != 0
    a = W.first(0, n, lambda k: W.Not(blank(k)))
    if a is None:
        return False, 0
    neg = bool(ch(a) == 45)
    b = a + 1 if neg or ch(a) == 43 else a
    e = W.first(b, n, lambda k: W.Not(isdigit(W, ch(k))))
    if e is None:
        e = n
    if e == b:
        return False, 0
    if W.first(e, n, lambda k: W.Not(blank(k))) is not None:
        return False, 0
    v = W.runvalue(ch)(e)
    return True, (0 - v if neg else v)


for _n, _m, _t, _lo, _hi in TYPES:
    def parse(W, s, lo=_lo, hi=_hi):
        if W.is_null(s):
            W.throw('ArgumentNullException')
        ok, v = number(W, s)
        if not ok:
            W.throw('FormatException')
        if W.Or(v < lo, v > hi):
            W.throw('OverflowException')
        return v

    def tryparse(W, s, out, lo=_lo, hi=_hi, t=_t):
        ok, v = (False, 0) if W.is_null(s) else number(W, s)
        if ok and W.Or(v < lo, v > hi):
            ok = False
        W.st_(out, 0, t, v if ok else 0)
        return ok
    contract('%s.Parse' % _n, P, '%s%d%sValue5ParseEPNS_6StringE' % (NS, len(_n) + 5, _n), _t, setup=lambda S: [text(S)], spec=parse)
    contract('%s.TryParse' % _n, P, '%s%d%sValue8TryParseEPNS_6StringER%s' % (NS, len(_n) + 5, _n, _m), 'bool',
             setup=lambda S, t=_t: [text(S), S.buf('out', t, 1)], spec=tryparse)


# ---- floating-point numbers: exactly one number as scanned by the C library, surrounded by blanks ------------------------------
def scan_text(W, s, w):
    """the number or None"""
    n, ch = slen(W, s), sch(W, s)
    blank = lambda k: W.cfn('iswspace', ch(k)) != 0
    a = W.first(0, n, lambda k: W.Not(blank(k)))
    if a is None:
        a = n
    ok, v, used = W.scan(sdata(W, s), a, w)
    if not ok:
        return None
    return v if W.all(a + used, n, blank) else None


def scans(S):
    if S.choose('null', [0, 1]):
        return S.null()
    s = string(S, 's')
    if S.symbolic:
        S.blanks()
    return s


for _n, _c, _w in (('Double', 'd', 64), ('Single', 'f', 32)):
    def mkf(n, c, w):
        def parse(W, s):
            if W.is_null(s):
                W.throw('ArgumentNullException')
            v = scan_text(W, s, w)
            if v is None:
                W.throw('FormatException')
            return v

        def tryparse(W, s, out):
            v = None if W.is_null(s) else scan_text(W, s, w)
            W.st_(out, 0, 'f%d' % w, W.fc(0.0, w) if v is None else v)
            return v is not None
        contract(n + '.Parse', P, NS + '%d%sValue5ParseEPNS_6StringE' % (len(n) + 5, n), 'f%d' % w, setup=lambda S: [scans(S)], spec=parse)
        contract(n + '.TryParse', P, NS + '%d%sValue8TryParseEPNS_6StringER%s' % (len(n) + 5, n, c), 'bool', setup=lambda S: [scans(S), S.obj(w // 8, 'out')], spec=tryparse)
    mkf(_n, _c, _w)
