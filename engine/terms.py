"""Terms: machine integers as mathematical integers (Int mode, canonical signed values, explicit wrap
only where the range cannot be proved) or as bit-vectors (BV mode); floats as IEEE terms; booleans."""
import z3
import math
from math import gcd

KEEP = []          # keeps z3 asts alive so that get_id() stays unique
RANGE = {}         # decl name -> (lo, hi) for Int-sorted constants / functions
ATTR = {}


def reset():
    pass


def is_int(x):
    return type(x) is int


def is_sym(x):
    return isinstance(x, z3.ExprRef)


_fresh = [0]


def fresh_name(p):
    _fresh[0] += 1
    return '%s!%d' % (p, _fresh[0])


INF = float('inf')
_lin = {}
_fromlin = {}
_iv = {}


def keep(t):
    KEEP.append(t)
    return t


def to_lin(t):
    """-> (const, {atom_id: (coef, atom)})"""
    if isinstance(t, int):
        return (t, {})
    i = t.get_id()
    r = _lin.get(i)
    if r is not None:
        return r
    keep(t)
    k = t.decl().kind()
    if z3.is_int_value(t):
        r = (t.as_long(), {})
    elif k == z3.Z3_OP_ADD:
        r = (0, {})
        for c in t.children():
            r = lin_add(r, to_lin(c), 1)
    elif k == z3.Z3_OP_SUB:
        ch = t.children()
        r = to_lin(ch[0])
        for c in ch[1:]:
            r = lin_add(r, to_lin(c), -1)
    elif k == z3.Z3_OP_UMINUS:
        r = lin_add((0, {}), to_lin(t.arg(0)), -1)
    elif k == z3.Z3_OP_MUL:
        cst = 1
        rest = []
        for c in t.children():
            l = to_lin(c)
            if not l[1]:
                cst *= l[0]
            else:
                rest.append(c)
        if not rest:
            r = (cst, {})
        elif len(rest) == 1:
            r = lin_add((0, {}), to_lin(rest[0]), cst)
        else:
            if cst == 1:
                r = (0, {i: (1, t)})
            else:
                m = keep(z3.Product(*sorted(rest, key=lambda e: e.get_id())))
                _lin[m.get_id()] = (0, {m.get_id(): (1, m)})
                r = (0, {m.get_id(): (cst, m)})
    else:
        r = (0, {i: (1, t)})
    _lin[i] = r
    return r


def lin_add(a, b, c):
    d = dict(a[1])
    for k, (co, at) in b[1].items():
        n = d[k][0] + c * co if k in d else c * co
        if n:
            d[k] = (n, at)
        else:
            d.pop(k, None)
    return (a[0] + c * b[0], d)


def from_lin(l):
    if not l[1]:
        return l[0]
    key = (l[0], tuple(sorted((k, v[0]) for k, v in l[1].items())))
    r = _fromlin.get(key)
    if r is not None:
        return r
    parts = []
    for k in sorted(l[1]):
        co, at = l[1][k]
        parts.append(at if co == 1 else z3.IntVal(co) * at)
    if l[0]:
        parts.append(z3.IntVal(l[0]))
    r = parts[0] if len(parts) == 1 else z3.Sum(*parts)
    keep(r)
    _fromlin[key] = r
    _lin[r.get_id()] = l
    return r


def iadd(a, b):
    if is_int(a) and is_int(b):
        return a + b
    return from_lin(lin_add(to_lin(a), to_lin(b), 1))


def isub(a, b):
    if is_int(a) and is_int(b):
        return a - b
    return from_lin(lin_add(to_lin(a), to_lin(b), -1))


def imul(a, b):
    if is_int(a) and is_int(b):
        return a * b
    if is_int(b):
        a, b = b, a
    if is_int(a):
        return from_lin(lin_add((0, {}), to_lin(b), a))
    la, lb = to_lin(a), to_lin(b)
    # distribute over small linear forms so that equal products get equal normal forms
    if len(la[1]) + (la[0] != 0) <= 4 and len(lb[1]) + (lb[0] != 0) <= 4:
        out = (la[0] * lb[0], {})
        if la[0]:
            out = lin_add(out, (0, lb[1]), la[0])
        if lb[0]:
            out = lin_add(out, (0, la[1]), lb[0])
        for ca, xa in la[1].values():
            for cb, xb in lb[1].values():
                fs = []
                for x in (xa, xb):
                    if x.decl().kind() == z3.Z3_OP_MUL:
                        fs += x.children()
                    else:
                        fs.append(x)
                fs.sort(key=lambda e: e.get_id())
                p = keep(z3.Product(*fs))
                _lin[p.get_id()] = (0, {p.get_id(): (1, p)})
                out = lin_add(out, (0, {p.get_id(): (1, p)}), ca * cb)
        return from_lin(out)
    return from_lin(to_lin(keep(a * b)))


def zi(x):
    return z3.IntVal(x) if is_int(x) else x


def interval(t, env=None):
    if is_int(t):
        return (t, t)
    lo, hi = 0, 0
    l = to_lin(t)
    lo = hi = l[0]
    for k, (co, at) in l[1].items():
        a, b = atom_iv(at, env)
        if co > 0:
            lo += co * a
            hi += co * b
        else:
            lo += co * b
            hi += co * a
    if env is not None and len(l[1]) > 1:
        e, s, c, g = canon(l)
        r = env.get(e.get_id())
        if r:
            # t = s*g*e + c
            x, y = (r[0] * s * g, r[1] * s * g)
            if x > y:
                x, y = y, x
            lo = max(lo, x + c)
            hi = min(hi, y + c)
    return (lo, hi)


def atom_iv(at, env):
    i = at.get_id()
    r = _iv.get(i)
    if r is None:
        r = _atom_iv(at)
        keep(at)
        _iv[i] = r
    if env:
        e = env.get(i)
        if e:
            return (max(r[0], e[0]), min(r[1], e[1]))
    return r


def _atom_iv(at):
    d = at.decl()
    k = d.kind()
    if k == z3.Z3_OP_UNINTERPRETED:
        return RANGE.get(d.name(), (-INF, INF))
    if k == z3.Z3_OP_ITE:
        a = interval(at.arg(1))
        b = interval(at.arg(2))
        return (min(a[0], b[0]), max(a[1], b[1]))
    if k == z3.Z3_OP_MOD and z3.is_int_value(at.arg(1)):
        c = at.arg(1).as_long()
        a = interval(at.arg(0))
        if a[0] >= 0 and a[1] < c:
            return a
        return (0, abs(c) - 1)
    if k == z3.Z3_OP_IDIV and z3.is_int_value(at.arg(1)):
        c = at.arg(1).as_long()
        a = interval(at.arg(0))
        if c > 0:
            return (a[0] // c if a[0] != -INF else -INF, a[1] // c if a[1] != INF else INF)
        return (-INF, INF)
    if k == z3.Z3_OP_MUL:
        ivs = [interval(c) for c in at.children()]
        r = ivs[0]
        for b in ivs[1:]:
            ps = []
            for x in r:
                for y in b:
                    p = x * y
                    if p != p:
                        p = 0
                    ps.append(p)
            r = (min(ps), max(ps))
        return r
    return (-INF, INF)


def canon(l):
    """lin -> (e, s, c, g): term = s*g*e + c with e canonical (gcd 1, leading coefficient positive)"""
    ks = sorted(l[1])
    g = 0
    for k in ks:
        g = gcd(g, abs(l[1][k][0]))
    s = 1 if l[1][ks[0]][0] > 0 else -1
    e = from_lin((0, {k: (v[0] // g * s, v[1]) for k, v in l[1].items()}))
    return e, s, l[0], g


# --- literals: ('ge', e, k) i.e. e >= k ; ('le', e, k) ; ('eq', e, k); built as z3 with registry
_lit = {}


def reg_lit(b, kind, e, k):
    keep(b)
    _lit[b.get_id()] = (kind, e, k)
    return b


def ige0(l):
    """z3/py bool for lin >= 0"""
    if not l[1]:
        return l[0] >= 0
    e, s, c, g = canon(l)
    if s > 0:   # g*e + c >= 0  -> e >= ceil(-c/g)
        k = -((c) // g)
        return reg_lit(e >= k, 'ge', e, k)
    k = c // g  # -g*e + c >= 0 -> e <= floor(c/g)
    return reg_lit(e <= k, 'le', e, k)


def ieq0(l):
    if not l[1]:
        return l[0] == 0
    e, s, c, g = canon(l)
    if c % g:
        return False
    k = -c // g * s
    return reg_lit(e == k, 'eq', e, k)


def ile(a, b):
    if is_int(a) and is_int(b):
        return a <= b
    return ige0(lin_add(to_lin(b), to_lin(a), -1))


def ilt(a, b):
    if is_int(a) and is_int(b):
        return a < b
    l = lin_add(to_lin(b), to_lin(a), -1)
    return ige0((l[0] - 1, l[1]))


def ieq(a, b):
    if is_int(a) and is_int(b):
        return a == b
    # equality of two ite's with constants is left to the solver
    return ieq0(lin_add(to_lin(a), to_lin(b), -1))


def lit_of(b):
    return _lit.get(b.get_id())


def Not(b):
    if isinstance(b, bool):
        return not b
    if z3.is_not(b):
        return b.arg(0)
    l = _lit.get(b.get_id())
    if l:
        if l[0] == 'ge':
            return reg_lit(l[1] <= l[2] - 1, 'le', l[1], l[2] - 1)
        if l[0] == 'le':
            return reg_lit(l[1] >= l[2] + 1, 'ge', l[1], l[2] + 1)
    return keep(z3.Not(b))


def And(*bs):
    out = []
    ids = set()
    for b in bs:
        if isinstance(b, (list, tuple)):
            b = And(*b)
        if b is True:
            continue
        if b is False:
            return False
        if b.get_id() not in ids:
            ids.add(b.get_id())
            out.append(b)
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return keep(z3.And(*out))


def Or(*bs):
    out = []
    ids = set()
    for b in bs:
        if isinstance(b, (list, tuple)):
            b = Or(*b)
        if b is False:
            continue
        if b is True:
            return True
        if b.get_id() not in ids:
            ids.add(b.get_id())
            out.append(b)
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    return keep(z3.Or(*out))


def Implies(a, b):
    return Or(Not(a), b)


def Iff(a, b):
    if isinstance(a, bool):
        return b if a else Not(b)
    if isinstance(b, bool):
        return a if b else Not(a)
    if a.get_id() == b.get_id():
        return True
    return keep(a == b)


def zb(b):
    return z3.BoolVal(b) if isinstance(b, bool) else b


class FloatVal:
    """IEEE value: bits (BitVec) and/or fp term, python-constant folded only through z3.simplify"""
    __slots__ = ('w', '_bits', '_fp')

    def __init__(self, w, bits=None, fp=None):
        self.w = w
        self._bits = bits
        self._fp = fp

    @property
    def sort(self):
        return z3.Float64() if self.w == 64 else z3.Float32()

    @property
    def fp(self):
        if self._fp is None:
            self._fp = keep(z3.simplify(z3.fpBVToFP(self._bits, self.sort)))
        return self._fp

    @property
    def bits(self):
        if self._bits is None:
            b = z3.simplify(z3.fpToIEEEBV(self._fp))
            self._bits = keep(b)
        return self._bits

    def has_bits(self):
        return self._bits is not None


def float_const(w, text):
    import struct
    if text.startswith('0x'):
        b = int(text[2:], 16)
        if w == 32:
            d = struct.unpack('<d', struct.pack('<Q', b))[0]
            if d != d:
                b = 0x7fc00000 | ((b >> 63) << 31)
            else:
                b = struct.unpack('<I', struct.pack('<f', d))[0]
    else:
        d = float(text)
        b = struct.unpack('<Q', struct.pack('<d', d))[0] if w == 64 else struct.unpack('<I', struct.pack('<f', d))[0]
    return FloatVal(w, bits=z3.BitVecVal(b, w))


def float_from_pybits(w, b):
    return FloatVal(w, bits=z3.BitVecVal(b, w))


class Ptr:
    """pointer = block id + byte offset (block 0 is null)"""
    __slots__ = ('b', 'off')

    def __init__(self, b, off=0):
        self.b = b
        self.off = off

    def __repr__(self):
        return 'Ptr(%s,%s)' % (self.b, self.off)


NULL = Ptr(0, 0)


class FnPtr:
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name


class AddrPtr:
    """pointer of unknown provenance: an integer address term (0 is null)"""
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return 'AddrPtr(%s)' % self.t


class PtrInt:
    """ptrtoint result"""
    __slots__ = ('p',)

    def __init__(self, p):
        self.p = p


class Undef:
    def __repr__(self):
        return 'undef'


UNDEF = Undef()


def smin(w):
    return -(1 << (w - 1))


def smax(w):
    return (1 << (w - 1)) - 1


def pywrap(w, v):
    v &= (1 << w) - 1
    return v - (1 << w) if v >> (w - 1) else v


class IntDom:
    name = 'int'

    def fresh(self, p, w):
        n = fresh_name(p)
        RANGE[n] = (smin(w), smax(w)) if w else (-INF, INF)
        return keep(z3.Int(n))

    def var(self, n, lo, hi):
        RANGE[n] = (lo, hi)
        return keep(z3.Int(n))

    def content_fn(self, p, w, rng=None):
        n = fresh_name(p)
        RANGE[n] = rng or (smin(w), smax(w))
        f = z3.Function(n, z3.IntSort(), z3.IntSort())
        KEEP.append(f)
        return f

    def wrap(self, w, t, st):
        if is_int(t):
            return pywrap(w, t)
        lo, hi = interval(t, st.env if st else None)
        a, b = smin(w), smax(w)
        if lo >= a and hi <= b:
            return t
        if st is not None and st.ctx.prove_quick(st, And(ile(a, t), ile(t, b))):
            return t
        m = 1 << w
        if lo >= a - m and hi <= b + m:
            r = t
            if hi > b:
                r = self.ite(ilt(b, t), isub(t, m), r)
            if lo < a:
                r = self.ite(ilt(t, a), iadd(t, m), r)
            return r
        # general
        q = keep(z3.simplify((zi(iadd(t, -a)) % m)))
        return iadd(q, a)

    def uns(self, w, t, st):
        if is_int(t):
            return t & ((1 << w) - 1)
        lo, hi = interval(t, st.env if st else None)
        if lo >= 0:
            return t
        if hi < 0:
            return iadd(t, 1 << w)
        if st is not None and st.ctx.prove_quick(st, ile(0, t)):
            return t
        return self.ite(ilt(t, 0), iadd(t, 1 << w), t)

    def ite(self, c, a, b):
        if isinstance(c, bool):
            return a if c else b
        if is_int(a) and is_int(b) and a == b:
            return a
        if is_sym(a) and is_sym(b) and a.get_id() == b.get_id():
            return a
        return keep(z3.If(c, zi(a), zi(b)))

    def pick(self, c, a, b):
        """ite with what both sides have in common outside, e.g. 4*i + 4*ite(c, 1, 0)"""
        if isinstance(c, bool) or not (is_sym(a) or is_sym(b)):
            return self.ite(c, a, b)
        (ca, ta), (cb, tb) = to_lin(a), to_lin(b)
        common = {k: v for k, v in ta.items() if k in tb and tb[k][0] == v[0]}
        ra = (ca - cb, {k: v for k, v in ta.items() if k not in common})
        rb = (0, {k: v for k, v in tb.items() if k not in common})
        g = 0
        for l in (ra, rb):
            g = gcd(g, abs(l[0]))
            for v in l[1].values():
                g = gcd(g, abs(v[0]))
        if not common and cb == 0 and g in (0, 1):
            return self.ite(c, a, b)
        if g == 0:
            return a
        part = lambda l: from_lin((l[0] // g, {k: (v[0] // g, v[1]) for k, v in l[1].items()}))
        return iadd(from_lin((cb, common)), imul(g, self.ite(c, part(ra), part(rb))))

    def add(self, w, a, b, st):
        return self.wrap(w, iadd(a, b), st)

    def sub(self, w, a, b, st):
        return self.wrap(w, isub(a, b), st)

    def mul(self, w, a, b, st):
        return self.wrap(w, imul(a, b), st)

    def fdivmod(self, a, c, st=None):
        """floor division by positive python int c -> (q, r)"""
        if is_int(a):
            return (a // c, a % c)
        if c == 1:
            return (a, 0)
        l = to_lin(a)
        # split the part divisible by c
        qd, rd = {}, {}
        for k, (co, at) in l[1].items():
            q, r = divmod(co, c)
            if q:
                qd[k] = (q, at)
            if r:
                rd[k] = (r, at)
        qc, rc = divmod(l[0], c)
        rest = from_lin((rc, rd))
        lo, hi = interval(rest, st.env if st else None)
        if lo != -INF and hi != INF and lo // c == hi // c:
            k = lo // c
            return (iadd(from_lin((qc, qd)), k), isub(rest, k * c))
        z = zi(rest)
        if z3.is_app(z) and z.num_args() == 2 and z3.is_int_value(z.arg(1)) and z.arg(1).as_long() > 0:
            # quotients and remainders of the same number, in one form
            x, m = from_lin(to_lin(z.arg(0))), z.arg(1).as_long()
            if z3.is_app_of(z, z3.Z3_OP_MOD) and m % c == 0:
                q, r = self.fdivmod(x, c, st)
                return (iadd(from_lin((qc, qd)), self.fdivmod(q, m // c, st)[1]), r)
            if z3.is_app_of(z, z3.Z3_OP_IDIV):
                return (iadd(from_lin((qc, qd)), self.fdivmod(x, m * c, st)[0]), keep(z % c))
        return (iadd(from_lin((qc, qd)), keep(z / c)), keep(z % c))

    def sdiv(self, w, a, b, st):
        if is_int(a) and is_int(b):
            q = abs(a) // abs(b)
            return pywrap(w, q if (a < 0) == (b < 0) else -q)
        if is_int(b):
            return self.wrap(w, self.tdiv(a, b, st), st)
        q = self.tdiv(a, b, st)
        return self.wrap(w, q, st)

    def tdiv(self, a, b, st):
        if is_int(b):
            s = 1 if b > 0 else -1
            c = abs(b)
            lo, hi = interval(a, st.env if st else None)
            if lo < 0 and st is not None and not is_int(a) and st.ctx.prove_quick(st, ile(0, a)):
                lo = 0
            if lo >= 0:
                q = self.fdivmod(a, c, st)[0]
            elif hi <= 0:
                q = imul(-1, self.fdivmod(imul(-1, a), c, st)[0])
            else:
                q = self.ite(ile(0, a), self.fdivmod(a, c, st)[0], imul(-1, self.fdivmod(imul(-1, a), c, st)[0]))
            return imul(s, q)
        za, zbv = zi(a), zi(b)
        # z3 integer division rounds so that remainder is non-negative
        return keep(z3.If(za >= 0, za / zbv, -((-za) / zbv)))

    def srem(self, w, a, b, st):
        if is_int(a) and is_int(b):
            r = abs(a) % abs(b)
            return r if a >= 0 else -r
        if is_int(b) and b:
            c = abs(b)
            lo, hi = interval(a, st.env if st else None)
            if lo < 0 < hi and st is not None and st.ctx.prove_quick(st, ile(0, a)):
                lo = 0
            if lo >= 0:
                return self.fdivmod(a, c, st)[1]
            if hi <= 0:
                return imul(-1, self.fdivmod(imul(-1, a), c, st)[1])
        return isub(a, imul(b, self.tdiv(a, b, st)))

    def udiv(self, w, a, b, st):
        a, b = self.uns(w, a, st), self.uns(w, b, st)
        if is_int(b):
            return self.wrap(w, self.fdivmod(a, b, st)[0], st)
        return self.wrap(w, keep(zi(a) / zi(b)), st)

    def urem(self, w, a, b, st):
        a, b = self.uns(w, a, st), self.uns(w, b, st)
        if is_int(b):
            return self.wrap(w, self.fdivmod(a, b, st)[1], st)
        return self.wrap(w, keep(zi(a) % zi(b)), st)

    def _bools(self, a):
        # recognise ite(c,1,0)
        if is_int(a) and a in (0, 1):
            return bool(a)
        if is_sym(a) and z3.is_app_of(a, z3.Z3_OP_ITE) and z3.is_int_value(a.arg(1)) and z3.is_int_value(a.arg(2)):
            x, y = a.arg(1).as_long(), a.arg(2).as_long()
            if (x, y) == (1, 0):
                return a.arg(0)
            if (x, y) == (0, 1):
                return Not(a.arg(0))
        return None

    def and_(self, w, a, b, st):
        if is_int(a) and is_int(b):
            return pywrap(w, a & b)
        if is_int(a):
            a, b = b, a
        if is_int(b):
            m = b & ((1 << w) - 1)
            if m == 0:
                return 0
            # contiguous mask
            low = (m & -m).bit_length() - 1
            mm = m >> low
            if mm & (mm + 1) == 0:
                n = mm.bit_length()
                u = a   # low bits of two's complement = mod of the signed value
                q = self.fdivmod(u, 1 << low, st)[0] if low else u
                r = self.fdivmod(q, 1 << n, st)[1]
                return self.wrap(w, imul(r, 1 << low), st)
        ba, bb = self._bools(a), self._bools(b)
        if ba is not None and bb is not None:
            return self.ite(And(ba, bb), 1, 0)
        if is_int(b):
            m = b & ((1 << w) - 1)
            r = 0
            while m:
                low = (m & -m).bit_length() - 1
                n = 0
                while (m >> (low + n)) & 1:
                    n += 1
                run = ((1 << n) - 1) << low
                r = iadd(r, self.uns(w, self.and_(w, a, pywrap(w, run), st), st))
                m &= ~run
            return self.wrap(w, r, st)
        m, x = self._mask(a, b, st)
        if m is not None:
            return self.ite(self.eq(m, 0), 0, x)
        return self._bitwise('and', w, a, b, st)

    def or_(self, w, a, b, st):
        if is_int(a) and is_int(b):
            return pywrap(w, a | b)
        if is_int(a) and a == 0:
            return b
        if is_int(b) and b == 0:
            return a
        ba, bb = self._bools(a), self._bools(b)
        if ba is not None and bb is not None:
            return self.ite(Or(ba, bb), 1, 0)
        # disjoint: one is a multiple of 2^k, other in [0,2^k)
        for x, y in ((a, b), (b, a)):
            lo, hi = interval(y, st.env if st else None)
            if lo >= 0 and hi != INF:
                k = int(hi).bit_length()
                l = to_lin(x)
                if l[0] % (1 << k) == 0 and all(v[0] % (1 << k) == 0 for v in l[1].values()):
                    return self.wrap(w, iadd(x, y), st)
        m, x = self._mask(a, b, st)
        if m is not None:
            return self.ite(self.eq(m, 0), x, -1)
        if is_int(a) or is_int(b):
            return isub(iadd(a, b), self.and_(w, a, b, st))
        return self._bitwise('or', w, a, b, st)

    def xor(self, w, a, b, st):
        if is_int(a) and is_int(b):
            return pywrap(w, a ^ b)
        if is_int(a):
            a, b = b, a
        if is_int(b) and b == -1:
            return isub(-1, a)
        if is_int(b) and b == 0:
            return a
        ba, bb = self._bools(a), self._bools(b)
        if ba is not None and bb is not None:
            return self.ite(Not(Iff(ba, bb)), 1, 0)
        m, x = self._mask(a, b, st)
        if m is not None:
            return self.ite(self.eq(m, 0), x, isub(-1, x))
        if is_int(a) or is_int(b):
            return self.wrap(w, isub(iadd(a, b), imul(2, self.and_(w, a, b, st))), st)
        return self._bitwise('xor', w, a, b, st)

    def _mask(self, a, b, st):
        for m, x in ((a, b), (b, a)):
            lo, hi = interval(m, st.env if st else None)
            if lo >= -1 and hi <= 0:
                return m, x
        return None, None

    def _bitwise(self, op, w, a, b, st):
        """two unknown words: a function of both of which only the sign and the range are known"""
        if z3.is_expr(a) and z3.is_expr(b) and a.get_id() > b.get_id():
            a, b = b, a
        if st is None:
            x, y = z3.Int2BV(zi(a), w), z3.Int2BV(zi(b), w)
            return keep(z3.BV2Int(x & y if op == 'and' else x | y if op == 'or' else x ^ y, True))
        r = keep(z3.Function('b%s%d' % (op, w), z3.IntSort(), z3.IntSort(), z3.IntSort())(zi(a), zi(b)))
        an, bn, rn = ilt(a, 0), ilt(b, 0), ilt(r, 0)
        st.assume(ile(smin(w), r))
        st.assume(ile(r, smax(w)))
        if op == 'and':
            st.assume(Iff(rn, And(an, bn)))
            st.assume(Or(an, ile(r, a)))
            st.assume(Or(bn, ile(r, b)))
        elif op == 'or':
            st.assume(Iff(rn, Or(an, bn)))
            st.assume(Or(rn, And(ile(a, r), ile(b, r))))
            st.assume(Or(rn, ile(r, iadd(a, b))))
        else:
            st.assume(Iff(rn, Not(Iff(an, bn))))
            st.assume(Iff(ieq(r, 0), ieq(a, b)))
            st.assume(Or(rn, an, ile(r, iadd(a, b))))
        return r

    def _byamount(self, w, a, b, st, f):
        r = f(a, w - 1)
        for k in range(w - 2, -1, -1):
            r = self.ite(self.eq(b, k), f(a, k), r)
        return r

    def shl(self, w, a, b, st):
        if is_int(b):
            return self.wrap(w, imul(a, 1 << (b & 127)), st)
        return self._byamount(w, a, b, st, lambda x, k: self.shl(w, x, k, st))

    def lshr(self, w, a, b, st):
        if is_int(b):
            return self.wrap(w, self.fdivmod(self.uns(w, a, st), 1 << b, st)[0], st)
        return self._byamount(w, a, b, st, lambda x, k: self.lshr(w, x, k, st))

    def ashr(self, w, a, b, st):
        if is_int(b):
            return self.fdivmod(a, 1 << b, st)[0]
        return self._byamount(w, a, b, st, lambda x, k: self.ashr(w, x, k, st))

    def cmp(self, pred, w, a, b, st):
        if pred == 'eq' or pred == 'ne':
            r = self.eq(a, b)
            return r if pred == 'eq' else Not(r)
        if pred[0] == 'u':
            a, b = self.uns(w, a, st), self.uns(w, b, st)
        o = pred[1:]
        if o == 'lt':
            return ilt(a, b)
        if o == 'le':
            return ile(a, b)
        if o == 'gt':
            return ilt(b, a)
        return ile(b, a)

    def eq(self, a, b):
        # simplify ite(c,k1,k2) == k
        for x, y in ((a, b), (b, a)):
            if is_int(y) and is_sym(x) and z3.is_app_of(x, z3.Z3_OP_ITE):
                t, e = x.arg(1), x.arg(2)
                tv = z3.is_int_value(t)
                ev = z3.is_int_value(e)
                if tv and ev:
                    tl, el = t.as_long() == y, e.as_long() == y
                    if tl and el:
                        return True
                    if tl:
                        return x.arg(0)
                    if el:
                        return Not(x.arg(0))
                    return False
                if tv and t.as_long() != y:
                    return And(Not(x.arg(0)), self.eq(e, y))
                if ev and e.as_long() != y:
                    return And(x.arg(0), self.eq(t, y))
        return ieq(a, b)

    def lt(self, a, b):
        return ilt(a, b)

    def le(self, a, b):
        return ile(a, b)

    def trunc(self, wf, wt, a, st):
        if wt == 1:
            b = self._bools(a)
            if b is not None:
                return b
            if is_int(a):
                return bool(a & 1)
            return self.eq(self.fdivmod(a, 2, st)[1], 1)
        return self.wrap(wt, a, st)

    def sext(self, wf, wt, a, st):
        return a

    def zext(self, wf, wt, a, st):
        return self.uns(wf, a, st)

    def b2i(self, b, w=32):
        if isinstance(b, bool):
            return 1 if b else 0
        return self.ite(b, 1, 0)

    def as_off(self, t):
        return t

    def extract(self, t, nbytes, j, cnt):
        """bytes j..j+cnt of an nbytes integer, canonical signed"""
        q = self.fdivmod(t, 1 << (8 * j))[0] if j else t
        return self.wrap(8 * cnt, self.fdivmod(q, 1 << (8 * cnt))[1], None)

    def concat(self, parts, pw):
        """little endian parts of pw bytes each -> canonical signed"""
        r = 0
        for i, p in enumerate(parts):
            last = i == len(parts) - 1
            u = p if last else self.uns(8 * pw, p, None)
            r = iadd(r, imul(1 << (8 * pw * i), u))
        return r


class BVDom:
    name = 'bv'

    def bv(self, w, a):
        if is_int(a):
            return z3.BitVecVal(a, w)
        return a

    def S(self, t):
        t = z3.simplify(t)
        if z3.is_bv_value(t):
            return t.as_signed_long()
        return keep(t)

    def SB(self, t):
        t = z3.simplify(t)
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        return keep(t)

    def fresh(self, p, w):
        return keep(z3.BitVec(fresh_name(p), w))

    def content_fn(self, p, w, rng=None):
        f = z3.Function(fresh_name(p), z3.BitVecSort(64), z3.BitVecSort(w))
        KEEP.append(f)
        return f

    def _bin(self, w, a, b, f, pf):
        if is_int(a) and is_int(b):
            return pywrap(w, pf(a, b))
        return self.S(f(self.bv(w, a), self.bv(w, b)))

    def add(self, w, a, b, st):
        return self._bin(w, a, b, lambda x, y: x + y, lambda x, y: x + y)

    def sub(self, w, a, b, st):
        return self._bin(w, a, b, lambda x, y: x - y, lambda x, y: x - y)

    def mul(self, w, a, b, st):
        return self._bin(w, a, b, lambda x, y: x * y, lambda x, y: x * y)

    def sdiv(self, w, a, b, st):
        return self.S(self.bv(w, a) / self.bv(w, b))

    def srem(self, w, a, b, st):
        return self.S(z3.SRem(self.bv(w, a), self.bv(w, b)))

    def udiv(self, w, a, b, st):
        return self.S(z3.UDiv(self.bv(w, a), self.bv(w, b)))

    def urem(self, w, a, b, st):
        return self.S(z3.URem(self.bv(w, a), self.bv(w, b)))

    def and_(self, w, a, b, st):
        return self._bin(w, a, b, lambda x, y: x & y, lambda x, y: x & y)

    def or_(self, w, a, b, st):
        return self._bin(w, a, b, lambda x, y: x | y, lambda x, y: x | y)

    def xor(self, w, a, b, st):
        return self._bin(w, a, b, lambda x, y: x ^ y, lambda x, y: x ^ y)

    def shl(self, w, a, b, st):
        return self.S(self.bv(w, a) << self.bv(w, b))

    def lshr(self, w, a, b, st):
        return self.S(z3.LShR(self.bv(w, a), self.bv(w, b)))

    def ashr(self, w, a, b, st):
        return self.S(self.bv(w, a) >> self.bv(w, b))

    def ite(self, c, a, b, w=None):
        if isinstance(c, bool):
            return a if c else b
        if is_int(a) and is_int(b):
            if a == b:
                return a
            if w is None:
                w = 64
        if w is None:
            w = (a if is_sym(a) else b).size()
        return self.S(z3.If(c, self.bv(w, a), self.bv(w, b)))

    def cmp(self, pred, w, a, b, st):
        if is_int(a) and is_int(b):
            if pred[0] == 'u':
                a &= (1 << w) - 1
                b &= (1 << w) - 1
            o = pred if pred in ('eq', 'ne') else pred[1:]
            return {'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[o]
        a, b = self.bv(w, a), self.bv(w, b)
        f = {'eq': lambda: a == b, 'ne': lambda: a != b, 'slt': lambda: a < b, 'sle': lambda: a <= b, 'sgt': lambda: a > b,
             'sge': lambda: a >= b, 'ult': lambda: z3.ULT(a, b), 'ule': lambda: z3.ULE(a, b), 'ugt': lambda: z3.UGT(a, b),
             'uge': lambda: z3.UGE(a, b)}[pred]
        return self.SB(f())

    def eq(self, a, b):
        if is_int(a) and is_int(b):
            return a == b
        w = (a if is_sym(a) else b).size()
        return self.cmp('eq', w, a, b, None)

    def lt(self, a, b):
        if is_int(a) and is_int(b):
            return a < b
        w = (a if is_sym(a) else b).size()
        return self.cmp('slt', w, a, b, None)

    def le(self, a, b):
        if is_int(a) and is_int(b):
            return a <= b
        w = (a if is_sym(a) else b).size()
        return self.cmp('sle', w, a, b, None)

    def trunc(self, wf, wt, a, st):
        if wt == 1:
            if is_int(a):
                return bool(a & 1)
            return self.SB(z3.Extract(0, 0, a) == 1)
        if is_int(a):
            return pywrap(wt, a)
        return self.S(z3.Extract(wt - 1, 0, a))

    def sext(self, wf, wt, a, st):
        if is_int(a):
            return a
        return self.S(z3.SignExt(wt - wf, a))

    def zext(self, wf, wt, a, st):
        if is_int(a):
            return a & ((1 << wf) - 1)
        return self.S(z3.ZeroExt(wt - wf, a))

    def b2i(self, b, w=32):
        if isinstance(b, bool):
            return 1 if b else 0
        return keep(z3.If(b, z3.BitVecVal(1, w), z3.BitVecVal(0, w)))

    def as_off(self, t):
        return t

    def extract(self, t, nbytes, j, cnt):
        if is_int(t):
            return pywrap(8 * cnt, t >> (8 * j))
        return self.S(z3.Extract(8 * (j + cnt) - 1, 8 * j, self.bv(8 * nbytes, t)))

    def concat(self, parts, pw):
        if all(is_int(p) for p in parts):
            v = 0
            for i, p in enumerate(parts):
                v |= (p & ((1 << (8 * pw)) - 1)) << (8 * pw * i)
            return pywrap(8 * pw * len(parts), v)
        return self.S(z3.Concat(*[self.bv(8 * pw, p) for p in reversed(parts)]))


INT = IntDom()
BV = BVDom()
