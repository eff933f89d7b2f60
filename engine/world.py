"""Specification worlds.  A contract's `spec` is ordinary Python over a world W; it runs symbolically
(verification and call sites) and concretely (oracle for replays and validation runs)."""
import z3
import random
import struct
from .terms import *
from .mem import *
from .mem import Unsupported
from .loops import val_eq
from .prover import Fact, forall, unz
from . import terms as T


class Throw(Exception):
    def __init__(self, name):
        self.name = name


class Reject(Exception):
    """setup produced an inadmissible case"""


class SpecGap(Exception):
    """the specification does not constrain this case (used sparingly, reported in the evidence)"""


_members = {}
CUR = [None]      # current symbolic world (for branching in __bool__)


def raw(x):
    if isinstance(x, (N, B)):
        return x.t
    return x


class B:
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return CUR[0].branch(self.t)

    def __and__(self, o):
        return mkb(And(self.t, raw(o)))

    def __rand__(self, o):
        return mkb(And(raw(o), self.t))

    def __or__(self, o):
        return mkb(Or(self.t, raw(o)))

    def __ror__(self, o):
        return mkb(Or(raw(o), self.t))

    def __invert__(self):
        return mkb(Not(self.t))

    def __eq__(self, o):
        return mkb(Iff(self.t, raw(o)))

    def __ne__(self, o):
        return mkb(Not(Iff(self.t, raw(o))))

    __hash__ = None


def mkb(t):
    if isinstance(t, bool):
        return t
    return B(t)


def mkn(t):
    if isinstance(t, int):
        return t
    return N(t)


class N:
    """symbolic mathematical integer"""
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __add__(self, o):
        return mkn(iadd(self.t, raw(o)))
    __radd__ = __add__

    def __sub__(self, o):
        return mkn(isub(self.t, raw(o)))

    def __rsub__(self, o):
        return mkn(isub(raw(o), self.t))

    def __mul__(self, o):
        return mkn(imul(self.t, raw(o)))
    __rmul__ = __mul__

    def __neg__(self):
        return mkn(imul(-1, self.t))

    def __floordiv__(self, o):
        o = raw(o)
        if isinstance(o, int):
            if o < 0:
                return mkn(INT.fdivmod(imul(-1, self.t), -o, CUR[0].st)[0])
            return mkn(INT.fdivmod(self.t, o, CUR[0].st)[0])
        return mkn(keep(zi(self.t) / zi(o)))      # only for positive divisors

    def __mod__(self, o):
        o = raw(o)
        if isinstance(o, int):
            return mkn(INT.fdivmod(self.t, o, CUR[0].st)[1])
        return mkn(keep(zi(self.t) % zi(o)))

    def __lt__(self, o):
        return mkb(CUR[0].st.simp(ilt(self.t, raw(o))))

    def __le__(self, o):
        return mkb(CUR[0].st.simp(ile(self.t, raw(o))))

    def __gt__(self, o):
        return mkb(CUR[0].st.simp(ilt(raw(o), self.t)))

    def __ge__(self, o):
        return mkb(CUR[0].st.simp(ile(raw(o), self.t)))

    def __eq__(self, o):
        if o is None:
            return False
        return mkb(CUR[0].st.simp(INT.eq(self.t, raw(o))))

    def __ne__(self, o):
        if o is None:
            return True
        return mkb(CUR[0].st.simp(Not(INT.eq(self.t, raw(o)))))

    __hash__ = None


TY = {'i8': ('i', 8, True), 'u8': ('i', 8, False), 'i16': ('i', 16, True), 'u16': ('i', 16, False), 'i32': ('i', 32, True),
      'u32': ('i', 32, False), 'i64': ('i', 64, True), 'u64': ('i', 64, False), 'ptr': ('ptr',), 'f64': ('f64',), 'f32': ('f32',)}
TYSIZE = {'i8': 1, 'u8': 1, 'i16': 2, 'u16': 2, 'i32': 4, 'u32': 4, 'i64': 8, 'u64': 8, 'ptr': 8, 'f64': 8, 'f32': 4}


# return value descriptions -----------------------------------------------------------------------
class NewStr:
    """a freshly allocated String with this length and characters"""

    def __init__(self, length, char):
        self.length, self.char = length, char


class NewArr:
    """a freshly allocated Array: dtype, dims (3), total, elem(k) raw element"""

    def __init__(self, dtype, dims, rank, total, w, kind, elem, signed=True):
        self.dtype, self.dims, self.rank, self.total, self.w, self.kind, self.elem = dtype, dims, rank, total, w, kind, elem


class NewObj:
    """a freshly allocated object of class cls with cells {off: (type, value)}"""

    def __init__(self, cls, cells):
        self.cls, self.cells = cls, cells


class NewMem:
    """fresh zeroed memory of at least this many bytes (null only when the C library has none)"""

    def __init__(self, size):
        self.size = size


class AnyOf:
    """value constrained only by a predicate"""

    def __init__(self, pred):
        self.pred = pred


class F:
    """IEEE value in specifications: exact bits"""

    def __init__(self, v):
        self.v = v


class SymWorld:
    symbolic = True

    def __init__(self, eng, st, trail=None, pending=None):
        self.eng = eng
        self.ctx = eng.ctx
        self.st = st
        self.trail = list(trail or [])
        self.pos = 0
        self.pending = pending if pending is not None else []
        self.views = []          # (kind, ptr, view) expected representation-independent states
        self.hidden = set()      # block ids whose raw contents are described by a view instead
        self.built = []          # (pointer, description): existing memory that becomes an object
        self.fresh_ok = set()

    # ---- branching
    def choice(self, n):
        if self.pos < len(self.trail):
            d = self.trail[self.pos]
        else:
            d = 0
            for j in range(n - 1, 0, -1):
                self.pending.append(self.trail + [j])
            self.trail.append(0)
        self.pos += 1
        return d

    def branch(self, t):
        st = self.st
        d = st.decide(t)
        if d is not None:
            return d
        if self.pos < len(self.trail):
            d = self.trail[self.pos]
            self.pos += 1
            if not st.assume(t if d else Not(t)):
                raise Infeasible()
            return d
        a = self.ctx.feasible(st, t)
        b = self.ctx.feasible(st, Not(t)) if a else True
        if a and b:
            self.pending.append(self.trail + [False])
            d = True
        else:
            d = a
        self.trail.append(d)
        self.pos += 1
        if not st.assume(t if d else Not(t)):
            raise Infeasible()
        return d

    def assume(self, b):
        b = raw(b)
        if not self.st.assume(b):
            raise Infeasible()

    # ---- logic
    def And(self, *bs):
        return mkb(And(*[raw(b) for b in bs]))

    def Or(self, *bs):
        return mkb(Or(*[raw(b) for b in bs]))

    def Not(self, b):
        return mkb(Not(raw(b)))

    def Implies(self, a, b):
        return mkb(Implies(raw(a), raw(b)))

    def If(self, c, a, b):
        c = raw(c)
        if isinstance(c, bool):
            return a if c else b
        if isinstance(a, (bool, B)) and isinstance(b, (bool, B)):
            return mkb(ite_val(INT, c, raw(a), raw(b)))
        r = ite_val(self.eng.dom, c, raw(a), raw(b))
        if isinstance(r, (int, z3.ExprRef)):
            return mkn(r)
        return r

    def min(self, a, b):
        return self.If(a <= b, a, b)

    def max(self, a, b):
        return self.If(a >= b, a, b)

    def wrap(self, w, x):
        return mkn(INT.wrap(w, raw(x), self.st))

    def unsigned(self, w, x):
        return mkn(INT.uns(w, INT.wrap(w, raw(x), self.st), self.st))

    def tdiv(self, a, b):
        return mkn(INT.tdiv(raw(a), raw(b), self.st))

    def first(self, lo, hi, pred):
        """index of the first k in [lo,hi) with pred(k), or None"""
        return self._find(lo, hi, pred, True)

    def last(self, lo, hi, pred):
        return self._find(lo, hi, pred, False)

    def _find(self, lo, hi, pred, fwd):
        lo, hi = raw(lo), raw(hi)
        if isinstance(lo, int) and isinstance(hi, int) and hi - lo <= 4:
            rng = range(lo, hi) if fwd else range(hi - 1, lo - 1, -1)
            for k in rng:
                if bool(mkb(raw(pred(k)))):
                    return k
            return None
        here = self

        def p(k):
            save = CUR[0]
            CUR[0] = save or here          # also when a fact is used after the contract has been evaluated
            try:
                return raw(pred(mkn(k)))
            finally:
                CUR[0] = save
        c = self.choice(2)
        st = self.st
        if c == 0:
            r = INT.var(fresh_name('sidx'), -INF, INF)
            ok = st.assume(And(ile(lo, r), ilt(r, hi))) and st.assume(p(r))
            if not ok:
                raise Infeasible()
            st.facts.append(forall(lo, r, lambda k: Not(p(k))) if fwd else forall(iadd(r, 1), hi, lambda k: Not(p(k))))
            if not self.ctx.feasible(st):
                raise Infeasible()
            return mkn(r)
        e = lo if fwd else isub(hi, 1)
        if not st.assume(Implies(ilt(lo, hi), Not(p(e)))):
            raise Infeasible()
        st.facts.append(forall(lo, hi, lambda k: Not(p(k))))
        if not self.ctx.feasible(st):
            raise Infeasible()
        return None

    def all(self, lo, hi, pred):
        return self.first(lo, hi, lambda k: self.Not(pred(k))) is None

    def member(self, rd, lo, hi, v):
        """there is j in [lo,hi) with rd(j) == v  (a defined predicate: usable under quantifiers)"""
        lo, hi = raw(lo), raw(hi)
        if isinstance(lo, int) and isinstance(hi, int) and hi - lo <= 24:
            return mkb(Or(*[INT.eq(raw(rd(j)), raw(v)) for j in range(lo, hi)]))
        st = self.st
        probe = raw(rd(mkn(keep(z3.Int('probe!member')))))
        key = ('member', probe.get_id(), lo if isinstance(lo, int) else lo.get_id(), hi if isinstance(hi, int) else hi.get_id())
        d = _members.get(key)
        if d is None:
            keep(probe)
            n = fresh_name('member')
            P = z3.Function(n, z3.IntSort(), z3.BoolSort())
            w = z3.Function(n.replace('member', 'witness'), z3.IntSort(), z3.IntSort())
            KEEP.extend([P, w])

            def inst1(m):
                wm = keep(w(zi(m)))
                return Implies(keep(P(zi(m))), And(ile(lo, wm), ilt(wm, hi), INT.eq(raw(rd(mkn(wm))), m))), []
            f1 = Fact([(n, lambda ch: unz(ch[0]))], inst1, 'member')
            f2 = forall(lo, hi, lambda j: keep(P(zi(raw(rd(mkn(j)))))))
            d = (P, f1, f2)
            _members[key] = d
        P, f1, f2 = d
        for f in (f1, f2):
            if not any(g is f for g in st.facts):
                st.facts.append(f)
        return mkb(keep(P(zi(raw(v)))))

    def small(self, n):
        pass

    def periodic(self, rd, m):
        """k -> rd(k mod m) for k >= 0, m >= 1 (a defined function)"""
        m = raw(m)
        if isinstance(m, int) and m == 0:
            return lambda k: 0
        st = self.st
        probe = raw(rd(mkn(keep(z3.Int('probe!member')))))
        key = ('periodic', probe.get_id(), m if isinstance(m, int) else m.get_id())
        d = _members.get(key)
        if d is None:
            keep(probe)
            n = fresh_name('periodic')
            P = z3.Function(n, z3.IntSort(), z3.IntSort())
            KEEP.append(P)
            c = lambda k: keep(P(zi(k)))

            def inst(k):
                a = Implies(And(ile(0, k), ilt(k, m)), INT.eq(c(k), raw(rd(mkn(k)))))
                d = isub(k, m)
                b = Implies(And(ile(0, d), ilt(0, m)), INT.eq(c(k), c(d)))
                return And(a, b), []
            d = (c, Fact([(n, lambda ch: unz(ch[0]))], inst, 'periodic'))
            _members[key] = d
        if not any(g is d[1] for g in st.facts):
            st.facts.append(d[1])
        return lambda k: mkn(d[0](raw(k)))

    def dec(self, v, pad=0):
        """decimal numeral of v: (length, characters)"""
        from .externs import numeral
        n, c = numeral(self.eng, self.st, raw(v), pad)
        return mkn(n), lambda k: mkn(c(raw(k)))

    def joined(self, *parts):
        """(length, characters) of the concatenation of texts: literals and (length, characters)"""
        from .externs import joined
        ps = [(len(p), lambda k, p=p: self.lit_char(p, k)) if isinstance(p, str) else (raw(p[0]), lambda k, p=p: raw(p[1](mkn(k)))) for p in parts]
        n, c = joined(ps)
        return mkn(n), lambda k: mkn(c(raw(k)))

    def lit_char(self, s, k):
        from .externs import const_text
        return const_text(self.eng, [ord(c) for c in s], k)

    def gtext(self, f):
        """text of a floating value (%G)"""
        from .externs import gnumeral
        f = f.v if isinstance(f, F) else f
        if f.w == 32:
            f = FloatVal(64, fp=keep(z3.fpFPToFP(z3.RNE(), f.fp, z3.Float64())))
        n, c = gnumeral(self.eng, self.st, f)
        return mkn(n), lambda k: mkn(c(raw(k)))

    def fold0(self):
        """assumed of the C library: case folding maps the terminator, and nothing else, to 0"""
        from .externs import uf_int, USED
        USED.add('towlower maps exactly 0 to 0')
        f = uf_int('towlower')
        self.st.facts.append(Fact([('towlower', lambda ch: T.unz(ch[0]) if hasattr(T, 'unz') else unz(ch[0]))],
                                  lambda m: (Iff(INT.eq(keep(f(zi(m))), 0), INT.eq(m, 0)), []), 'towlower'))

    def blanks(self):
        """assumed of the C library: the terminator and the visible ASCII characters (digits and signs among them) are not white space"""
        from .externs import uf_int, USED
        USED.add('iswspace is false for the characters 0 and 33 to 126')
        f = uf_int('iswspace')
        self.st.facts.append(Fact([('iswspace', lambda ch: unz(ch[0]))], lambda m: (Implies(Or(INT.eq(m, 0), And(ile(33, m), ile(m, 126))), INT.eq(keep(f(zi(m))), 0)), []), 'iswspace'))

    def greedy(self, ra, rb, m, E, step=None):
        """C(p): non-overlapping matches of rb[0..m) in ra scanning from p while p < E"""
        from .externs import greedy
        c = greedy(self.eng, self.st, lambda k: raw(ra(mkn(k))), lambda k: raw(rb(mkn(k))), raw(m), raw(E), raw(step))
        return lambda p: mkn(c(raw(p)))

    def rewrite(self, ra, L0, rb, m, rr, k, start, count):
        """(length, characters) of ra[0..L0) after the leftmost non-overlapping matches of rb[0..m) inside [start, start+count) are replaced by rr[0..k)"""
        from .externs import rewrite
        f = lambda g: lambda k: raw(g(mkn(k)))
        R = rewrite(self.eng, self.st, f(ra), raw(L0), f(rb), raw(m), f(rr), raw(k), raw(start), isub(iadd(iadd(raw(start), raw(count)), 1), raw(m)))
        self.last_rewrite = R
        return mkn(iadd(raw(L0), R.total)), lambda q: mkn(R.out(raw(q)))

    def runvalue(self, rd):
        """k -> the number denoted by the maximal run of decimal digits ending before position k"""
        from .externs import runvalue
        v = runvalue(self.st, lambda k: raw(rd(mkn(k))))
        return lambda k: mkn(v(raw(k)))

    def scan(self, p, at, w):
        """scanning a floating-point number at position `at` of the text p: (accepted, value, characters used)"""
        from .externs import scanned
        ok, v, used = scanned(p.b, raw(at), w)
        return mkb(ok), FloatVal(w, fp=v), mkn(used)

    def clock(self):
        """what the system clock shows: seconds since 1970, nanoseconds"""
        from .externs import clock_reading
        return tuple(mkn(x) for x in clock_reading(0))

    def civil(self, kind, field, t):
        """a field of the C library's broken-down time ('gmtime' or 'localtime') of the moment t"""
        from .externs import civil_field
        return mkn(civil_field(kind, field, raw(t)))

    def dst(self, *fields):
        """the C library's answer whether daylight saving time is in force (1, 0, or -1: unknown)"""
        from .externs import dst_of
        return mkn(dst_of([raw(x) for x in fields], -1))

    def cfn(self, name, x):
        """value of a C library character function"""
        from .externs import uf_int
        return mkn(keep(uf_int(name)(zi(raw(x)))))

    def occurs(self, ra, rb, m):
        """predicate: the m elements rb(0..m) stand at ra(k..k+m)"""
        from .externs import occurs
        P = occurs(self.st, lambda k: raw(ra(mkn(k))), lambda k: raw(rb(mkn(k))), raw(m))
        return lambda k: mkb(P(raw(k)))

    def builds(self, p, d):
        """the memory at p becomes the described object (constructors)"""
        self.hidden.add(p.b)
        self.built.append((p, d))

    # ---- memory
    def is_null(self, p):
        if isinstance(p, Ptr):
            return p.b == 0
        if isinstance(p, AddrPtr):
            return mkb(INT.eq(p.t, 0))
        return False

    def null(self):
        return NULL

    def same(self, p, q):
        return mkb(self.eng.ptrcmp(self.st, 'eq', p, q, None))

    def free(self, p):
        self.st.wblk(p.b).alive = False

    def alive(self, p):
        b = self.st.blk(p.b)
        return b is not None and b.alive

    def had(self, p):
        """the block of p existed before the call"""
        return p.b in self.st.mem or p.b in self.ctx.ginit

    def lemma(self, name, c):
        """a fact about the specification's own functions, for all values of its variables: proved in the contracts with the option prove_lemmas, known where contracts are used"""
        c = raw(c)
        if not self.at_call() and not self.ctx.opaque:
            if c is True or not self.ctx.prove_lemmas:
                return
            n = self.ctx.silent
            self.ctx.silent = 0
            try:
                self.ctx.oblige(self.st, c, 'lemma: ' + name, 'lemma', None, assume=False)
            finally:
                self.ctx.silent = n
            return
        self.assume(mkb(c))

    def spec_fn(self, name, expr, *args):
        """a function of the specification; in contracts with the option opaque only its lemmas are known, not its formula"""
        if not self.ctx.opaque:
            return expr
        a = [raw(x) for x in args]
        a = [z3.IntVal(x) if isinstance(x, int) else x for x in a]
        return mkn(keep(z3.Function('spec_' + name, *([z3.IntSort()] * (len(a) + 1)))(*a)))

    def at_call(self):
        """is this specification used as a summary (the state must be changed) rather than checked"""
        return not hasattr(self, 'inputs')

    def some_int(self, name, lo, hi):
        """an unknown number in [lo,hi] (call sites only)"""
        v = INT.var(fresh_name(name), -INF, INF)
        self.assume(mkb(And(ile(raw(lo), v), ile(v, raw(hi)))))
        return mkn(v)

    def havoc(self, p, ty):
        """the array at p gets unknown contents (call sites only)"""
        wb = self.st.wblk(p.b)
        si = self.eng.find_seg(wb, p.off)
        kind = 'f' if ty[0] == 'f' else 'i'
        w = TYSIZE[ty]
        wb.segs[si] = Seg(wb.segs[si].start, wb.segs[si].size, w, kind, BaseC(self.eng.dom, w, kind, 'havoc'))

    def fresh_buf(self, ty, n):
        """a new heap block of n elements with unknown contents (call sites only)"""
        w = TYSIZE[ty]
        sz = off_mul(self.eng.dom, raw(n), w)
        b = self.eng.new_block(self.st, sz, 'heap', 'undef', 'heap')
        kind = 'f' if ty[0] == 'f' else 'i'
        b.segs.append(Seg(0, sz, w, kind, BaseC(self.eng.dom, w, kind, 'havoc')))
        return Ptr(b.id, 0)

    def abstract(self):
        """call sites: buffers of local builders are described without saying whether they are inline"""
        return self.at_call() and self.ctx.abstract_buffers

    def local(self, p):
        """a local variable of the function"""
        o = self.st.blk(p.b).origin
        return isinstance(o, tuple) and o[0] == 'stack'

    def opaque(self, p):
        from .core import OpaqueC
        b = self.st.wblk(p.b)
        si = self.eng.find_seg(b, p.off)
        b.segs[si] = b.segs[si].with_chain(OpaqueC())

    def some_buf(self, ty, n):
        p = self.fresh_buf(ty, n)
        self.st.blk(p.b).origin = 'sbbuf'
        return p

    def bits(self, f):
        """the bit pattern of an IEEE value as a signed number"""
        f = f.v if isinstance(f, F) else f
        return mkn(self.eng.conv_kind(f, 'f', 'i', f.w // 8))

    def ofbits(self, x, w):
        """the IEEE value with this bit pattern"""
        return F(self.eng.conv_kind(INT.wrap(w, raw(x), self.st), 'i', 'f', w // 8))

    def blocksize(self, p):
        return mkn(off_sub(self.eng.dom, self.st.blk(p.b).size, p.off))

    def ld(self, p, off, ty):
        q = Ptr(p.b, off_add(self.eng.dom, p.off, raw(off)))
        self.ctx.silent += 1
        try:
            v = self.eng.load(self.st, q, TY[ty][:2] if TY[ty][0] == 'i' else TY[ty], None, 'spec')
        except PathEnd:
            raise Unsupported('specification reads outside an object')
        finally:
            self.ctx.silent -= 1
        return self.lift(v, ty)

    def lift(self, v, ty):
        if isinstance(v, (int, z3.ExprRef)) and not isinstance(v, (bool, z3.BoolRef)):
            if self.eng.dom is INT:
                if ty[0] == 'u':
                    v = INT.uns(int(ty[1:]), v, self.st)
                return mkn(v)
            return v
        return v

    def lower(self, v, ty):
        v = raw(v)
        if isinstance(v, F):
            v = v.v
        if isinstance(v, (bool, z3.BoolRef)):
            return self.eng.dom.b2i(v, 8 * TYSIZE[ty])
        if ty[0] == 'u' and self.eng.dom is INT:
            w = int(ty[1:])
            v = INT.wrap(w, v, self.st)
        return v

    def st_(self, p, off, ty, v):
        q = Ptr(p.b, off_add(self.eng.dom, p.off, raw(off)))
        self.ctx.silent += 1
        try:
            self.eng.store(self.st, q, TY[ty][:2] if TY[ty][0] == 'i' else TY[ty], self.lower(v, ty), None, 'spec')
        except PathEnd:
            raise Unsupported('specification writes outside an object')
        finally:
            self.ctx.silent -= 1

    def elem(self, p, ty, k):
        """element k of the array at p, without a bounds condition"""
        return self.reader(p, ty)(k)

    def reader(self, p, ty):
        b = self.st.blk(p.b)
        si = self.eng.find_seg(b, p.off)
        w = TYSIZE[ty]
        st = self.st
        if si is None and not b.segs:
            b = self.eng.promote(st, p.b, w, 'f' if ty[0] == 'f' else ('p' if ty == 'ptr' else 'i'))
            si = self.eng.find_seg(b, p.off)
        if si is None:
            return lambda k: self.ld(p, off_mul(self.eng.dom, raw(k), w), ty)
        s = b.segs[si]
        kind = 'f' if ty[0] == 'f' else ('p' if ty == 'ptr' else 'i')
        if s.w is None:
            b = self.eng.set_width(st, p.b, si, w, kind)
            s = b.segs[si]
        base = off_sub(self.eng.dom, p.off, s.start)
        eng = self.eng
        nt = eng.neutral()

        def rd(k):
            rel = off_add(eng.dom, base, off_mul(eng.dom, raw(k), w))
            return self.lift(eng.seg_read(nt, s, rel, w, kind, None, 'spec'), ty)
        return rd

    def closed(self, fn):
        """fn evaluated later, in other states: only with what is known now"""
        if not self.at_call():
            return fn
        Z = SymWorld(self.eng, self.st.fork())

        def f(*a):
            save = CUR[0]
            CUR[0] = Z
            try:
                return fn(*a)
            finally:
                CUR[0] = save
        return f

    def set_region(self, p, ty, lo, n, fn):
        """elements lo..lo+n of the array at p become fn(k), k relative to the array start"""
        b = self.st.blk(p.b)
        si = self.eng.find_seg(b, p.off)
        w = TYSIZE[ty]
        dom = self.eng.dom
        if si is None and not b.segs:
            b = self.eng.promote(self.st, p.b, w, 'f' if ty[0] == 'f' else ('p' if ty == 'ptr' else 'i'))
            si = self.eng.find_seg(b, p.off)
        if si is None:
            if not isinstance(raw(n), int) or not isinstance(raw(lo), int):
                raise Unsupported('symbolic region of a record')
            for k in range(raw(lo), raw(lo) + raw(n)):
                self.st_(p, k * w, ty, fn(k))
            return
        s = b.segs[si]
        kind = 'f' if ty[0] == 'f' else ('p' if ty == 'ptr' else 'i')
        if s.w is None:
            b = self.eng.set_width(self.st, p.b, si, w, kind)
            s = b.segs[si]
        if s.w != w:
            raise Unsupported('region of another width')
        q, r = off_divmod(dom, off_sub(dom, p.off, s.start), w, self.st)
        W = self
        fn = self.closed(fn)

        def f(k):
            return W.lower(fn(mkn(off_sub(dom, k, q))), ty)
        ch = CopyC(s.chain, off_add(dom, q, raw(lo)), raw(n), FnC(lambda j: f(j)), off_add(dom, q, raw(lo)))
        wb = self.st.wblk(p.b)
        wb.segs[si] = s.with_chain(ch)

    def vtable_of(self, p):
        v = self.ld(p, 0, 'ptr')
        return self.ctx.gnames.get(v.b) if isinstance(v, Ptr) else None

    def throw(self, name):
        raise Throw(name)

    def global_ptr(self, name):
        return Ptr(self.ctx.glob_id(name), 0)


class Infeasible(Exception):
    pass


def explore(eng, base, fn, limit=3000):
    """all symbolic paths of fn(W) from a fork of state `base` -> list of (W, result)"""
    pending = [[]]
    out = []
    while pending:
        trail = pending.pop()
        W = SymWorld(eng, base.fork(), trail, pending)
        CURsave = CUR[0]
        CUR[0] = W
        try:
            r = fn(W)
            out.append((W, r))
        except Infeasible:
            pass
        finally:
            CUR[0] = CURsave
        if len(out) > limit:
            raise Unsupported('specification has too many paths')
    return out


# ================================================================ concrete world
class CBlk:
    __slots__ = ('id', 'size', 'data', 'rel', 'alive', 'name')

    def __init__(self, id, size):
        self.id, self.size = id, size
        self.data = bytearray(size)
        self.rel = {}         # off -> ('b', blk, off) | ('s', symbol, addend)
        self.alive = True

    def copy(self):
        b = CBlk(self.id, 0)
        b.size = self.size
        b.data = bytearray(self.data)
        b.rel = dict(self.rel)
        b.alive = self.alive
        return b


class CPtr:
    """concrete pointer: block id (0 = null), offset; or a symbol ('s', name)"""
    __slots__ = ('b', 'off')

    def __init__(self, b, off=0):
        self.b, self.off = b, off

    def __eq__(self, o):
        return isinstance(o, CPtr) and (self.b, self.off) == (o.b, o.off)

    def __hash__(self):
        return hash((self.b, self.off))

    def __repr__(self):
        return 'CPtr(%s,%s)' % (self.b, self.off)


CNULL = CPtr(0, 0)


class Poison:
    """what lies outside an object, in a concrete run: equal to nothing (only harmless where the value is not used)"""

    def __eq__(self, o):
        return False

    def __ne__(self, o):
        return True

    def _p(self, *a):
        return self
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __floordiv__ = __mod__ = __neg__ = _p

    def _f(self, o):
        return False
    __lt__ = __le__ = __gt__ = __ge__ = _f
    __hash__ = None


POISON = Poison()


def pickc(s):
    """character k of a text (concrete)"""
    return lambda k: ord(s[k]) if 0 <= k < len(s) else POISON


_libc = []


def clib(name, x):
    """the C library's answer in the "C" locale (the locale of the replay driver)"""
    import ctypes
    if not _libc:
        import ctypes.util
        l = ctypes.CDLL(None)
        l.newlocale.restype = ctypes.c_void_p
        l.newlocale.argtypes = [ctypes.c_int, ctypes.c_char_p, ctypes.c_void_p]
        _libc.extend([l, l.newlocale(0x1fbf, b'C', None)])
    f = getattr(_libc[0], name + '_l')
    f.argtypes = [ctypes.c_uint, ctypes.c_void_p]
    f.restype = ctypes.c_int
    return f(x & 0xffffffff, _libc[1])
FMT = {'i8': '<b', 'u8': '<B', 'i16': '<h', 'u16': '<H', 'i32': '<i', 'u32': '<I', 'i64': '<q', 'u64': '<Q', 'f64': '<Q', 'f32': '<I'}


class CF:
    """concrete IEEE value by bits"""
    __slots__ = ('w', 'bits')

    def __init__(self, w, bits):
        self.w, self.bits = w, bits

    def val(self):
        return struct.unpack('<d', struct.pack('<Q', self.bits))[0] if self.w == 64 else struct.unpack('<f', struct.pack('<I', self.bits))[0]

    def __repr__(self):
        return 'CF(%d,0x%x)' % (self.w, self.bits)


class ConWorld:
    symbolic = False

    def __init__(self, mem):
        self.mem = mem            # id -> CBlk  (modified by the spec: expected post state)
        self.views = []
        self.hidden = set()
        self.built = []

    def And(self, *bs):
        return all(bs)

    def Or(self, *bs):
        return any(bs)

    def Not(self, b):
        return not b

    def Implies(self, a, b):
        return (not a) or b

    def If(self, c, a, b):
        return a if c else b

    def min(self, a, b):
        return min(a, b)

    def max(self, a, b):
        return max(a, b)

    def wrap(self, w, x):
        return T.pywrap(w, x)

    def unsigned(self, w, x):
        return x & ((1 << w) - 1)

    def tdiv(self, a, b):
        q = abs(a) // abs(b)
        return q if (a < 0) == (b < 0) else -q

    def assume(self, b):
        if not b:
            raise Reject()

    def first(self, lo, hi, pred):
        for k in range(lo, hi):
            if pred(k):
                return k
        return None

    def last(self, lo, hi, pred):
        for k in range(hi - 1, lo - 1, -1):
            if pred(k):
                return k
        return None

    def all(self, lo, hi, pred):
        return all(pred(k) for k in range(lo, hi))

    def member(self, rd, lo, hi, v):
        return any(rd(j) == v for j in range(lo, hi))

    def greedy(self, ra, rb, m, E, step=None):
        def c(p):
            r = 0
            while p < E:
                if all(ra(p + j) == rb(j) for j in range(m)):
                    r += 1 if step is None else step
                    p += m
                else:
                    p += 1
            return r
        return c

    def rewrite(self, ra, L0, rb, m, rr, k, start, count):
        t = [ra(i) for i in range(start)]
        p = start
        while p < start + count - m + 1:
            if all(ra(p + j) == rb(j) for j in range(m)):
                t += [rr(j) for j in range(k)]
                p += m
            else:
                t.append(ra(p))
                p += 1
        t += [ra(i) for i in range(p, L0)]
        self.small(len(t))
        return len(t), lambda q: t[q]

    def periodic(self, rd, m):
        return lambda k: rd(k % m) if m else POISON

    def dec(self, v, pad=0):
        s = '%0*d' % (pad, v) if pad else str(v)
        return len(s), pickc(s)

    def joined(self, *parts):
        s = ''.join(p if isinstance(p, str) else ''.join(chr(p[1](k)) for k in range(p[0])) for p in parts)
        return len(s), pickc(s)

    def gtext(self, f):
        import ctypes
        f = f.v if isinstance(f, F) else f
        b = ctypes.create_string_buffer(64)
        ctypes.CDLL(None).snprintf(b, 64, b'%G', ctypes.c_double(f.val()))
        s = b.value.decode()
        return len(s), pickc(s)

    def fold0(self):
        pass

    def blanks(self):
        pass

    def runvalue(self, rd):
        def v(k):
            a = k
            while a > 0 and 48 <= rd(a - 1) <= 57:
                a -= 1
            return int(''.join(chr(rd(j)) for j in range(a, k)) or '0')
        return v

    def scan(self, p, at, w):
        import ctypes
        rd = self.reader(p, 'i32')
        t = []
        while rd(at + len(t)) != 0:
            t.append(rd(at + len(t)))
        libc = ctypes.CDLL(None)
        buf = (ctypes.c_int32 * (len(t) + 1))(*t)
        f = (ctypes.c_wchar * 6)(*('%lG%n' if w == 64 else '%G%n'))
        v, used = (ctypes.c_double if w == 64 else ctypes.c_float)(0), ctypes.c_int(0)
        clib('iswspace', 32)
        libc.uselocale.restype, libc.uselocale.argtypes = ctypes.c_void_p, [ctypes.c_void_p]
        old = libc.uselocale(_libc[1])                  # the replay driver runs in the "C" locale
        try:
            r = libc.swscanf(buf, f, ctypes.byref(v), ctypes.byref(used))
        finally:
            libc.uselocale(old)
        from .fl import CF, pybits
        return r == 1, CF(w, pybits(v.value, w)), used.value

    def clock(self):
        return 0, 0

    def civil(self, kind, field, t):
        return 0                # the replay driver runs in universal time

    def dst(self, *fields):
        return 0

    def cfn(self, name, x):
        return clib(name, x)

    def occurs(self, ra, rb, m):
        return lambda k: all(ra(k + j) == rb(j) for j in range(m))

    def small(self, n):
        """concrete runs skip cases that would build n elements when n is huge"""
        if n > 12000:
            raise Reject()

    def builds(self, p, d):
        """the memory at p becomes the described object (constructors)"""
        self.hidden.add(p.b)
        self.built.append((p, d))

    def is_null(self, p):
        return p.b == 0

    def null(self):
        return CNULL

    def same(self, p, q):
        return p == q

    def free(self, p):
        self.mem[p.b].alive = False

    def alive(self, p):
        return p.b in self.mem and self.mem[p.b].alive

    def had(self, p):
        return p.b in self.mem

    def spec_fn(self, name, expr, *args):
        return expr

    def lemma(self, name, c):
        assert c, 'lemma: ' + name

    def at_call(self):
        return False

    def abstract(self):
        return False

    def bits(self, f):
        f = f.v if isinstance(f, F) else f
        return T.pywrap(f.w, f.bits)

    def ofbits(self, x, w):
        return F(CF(w, x & ((1 << w) - 1)))

    def blocksize(self, p):
        return self.mem[p.b].size - p.off

    def ldraw(self, mem, p, off, ty):
        if p.b == 0 or isinstance(p.b, str):
            if isinstance(p.b, str) and p.b in mem:
                pass
            elif isinstance(p.b, str):
                raise Unsupported('concrete read of symbol memory')
            else:
                raise Reject()
        b = mem[p.b]
        o = p.off + off
        if ty == 'ptr':
            r = b.rel.get(o)
            if r is None:
                v = struct.unpack_from('<Q', b.data, o)[0]
                return CNULL if v == 0 else CPtr(-1, v)
            return CPtr(r[1], r[2])
        if o < 0 or o + TYSIZE[ty] > b.size:
            raise Reject()
        v = struct.unpack_from(FMT[ty], b.data, o)[0]
        if ty == 'f64':
            return CF(64, v)
        if ty == 'f32':
            return CF(32, v)
        return v

    def ld(self, p, off, ty):
        return self.ldraw(self.mem, p, off, ty)

    def elem(self, p, ty, k):
        return self.ld(p, k * TYSIZE[ty], ty)

    def reader(self, p, ty):
        # value at the time of the call (contents may be overwritten later by effects)
        b = self.mem.get(p.b)
        snap = b.copy() if b is not None else None
        m = {p.b: snap}
        w = TYSIZE[ty]

        def rd(k):
            if isinstance(k, Poison) or (snap is not None and not 0 <= p.off + k * w <= snap.size - w):
                return POISON
            return self.ldraw(m, p, k * w, ty)
        return rd

    def st_(self, p, off, ty, v):
        b = self.mem[p.b]
        o = p.off + off
        if isinstance(v, bool):
            v = int(v)
        if ty == 'ptr':
            struct.pack_into('<Q', b.data, o, 0)
            b.rel.pop(o, None)
            if v.b != 0:
                b.rel[o] = ('b', v.b, v.off)
            return
        if isinstance(v, Poison):
            raise Unsupported('the contract writes a value from outside an object')
        if isinstance(v, F):
            v = v.v
        if isinstance(v, CF):
            v = v.bits
        n = TYSIZE[ty]
        b.data[o:o + n] = (v & ((1 << (8 * n)) - 1)).to_bytes(n, 'little')

    def set_region(self, p, ty, lo, n, fn):
        vals = [fn(k) for k in range(lo, lo + n)]
        for k, v in enumerate(vals):
            self.st_(p, (lo + k) * TYSIZE[ty], ty, v)

    def vtable_of(self, p):
        r = self.mem[p.b].rel.get(p.off)
        return r[1] if r else None

    def throw(self, name):
        raise Throw(name)

    def global_ptr(self, name):
        return CPtr(name, 0)
