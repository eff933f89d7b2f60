"""Memory blocks, lazy array contents, symbolic states."""
import z3
from .terms import *
from . import terms as T


class Unsupported(Exception):
    pass


class MergeFail(Exception):
    pass


class PathEnd(Exception):
    """the current path cannot continue (after a failed obligation or an infeasible assumption)"""


# ---------------------------------------------------------------- lazy array contents
class Chain:
    pass


class ZeroC(Chain):
    def read(self, k, st, w, kind):
        return zero_of(w, kind)


class BaseC(Chain):
    """uninterpreted contents"""

    def __init__(self, dom, w, kind, name='m', rng=None, fn=None):
        self.dom, self.w, self.kind = dom, w, kind
        if kind == 'f':
            # contents as bit patterns
            ks = z3.IntSort() if dom is INT else z3.BitVecSort(64)
            n = fresh_name(name)
            self.fn = fn or z3.Function(n, ks, z3.BitVecSort(8 * w))
            KEEP.append(self.fn)
        else:
            self.fn = fn or dom.content_fn(name, 8 * w, rng)
        self.cache = {}

    def read(self, k, st, w, kind):
        if isinstance(k, int):
            kk = z3.IntVal(k) if self.dom is INT else z3.BitVecVal(k, 64)
            key = k
        else:
            kk = k
            key = ('t', k.get_id())
        r = self.cache.get(key)
        if r is None:
            r = keep(self.fn(kk))
            if self.kind == 'f':
                r = FloatVal(8 * self.w, bits=r)
            self.cache[key] = r
        return r


class FnC(Chain):
    def __init__(self, fn):
        self.fn = fn

    def read(self, k, st, w, kind):
        return self.fn(k)


class ConstC(Chain):
    """concrete table"""

    def __init__(self, vals):
        self.vals = vals

    def read(self, k, st, w, kind):
        if isinstance(k, int):
            return self.vals[k] if 0 <= k < len(self.vals) else zero_of(w, kind)
        dom = st.ctx.dom
        lo, hi = 0, len(self.vals) - 1
        if dom is INT:
            a, b = interval(k, st.env)
            lo, hi = max(lo, a), min(hi, b)
        lo, hi = int(lo), int(hi)
        if lo > hi:
            return self.vals[0]
        r = self.vals[hi]
        for i in range(hi - 1, lo - 1, -1):
            r = ite_val(dom, dom.eq(k, i), self.vals[i], r, 8 * w)
        return r


class StoreC(Chain):
    def __init__(self, prev, idx, val):
        self.prev, self.idx, self.val = prev, idx, val

    def read(self, k, st, w, kind):
        dom = st.ctx.dom
        c = st.simp(dom.eq(k, self.idx))
        if c is True:
            return self.val
        if c is False:
            return self.prev.read(k, st, w, kind)
        return ite_val(dom, c, self.val, self.prev.read(k, st, w, kind), 8 * w)


class FillC(Chain):
    def __init__(self, prev, idx, n, val):
        self.prev, self.idx, self.n, self.val = prev, idx, n, val

    def read(self, k, st, w, kind):
        dom = st.ctx.dom
        c = in_range(dom, st, k, self.idx, self.n)
        if c is True:
            return self.val
        if c is False:
            return self.prev.read(k, st, w, kind)
        return ite_val(dom, c, self.val, self.prev.read(k, st, w, kind), 8 * w)


class CopyC(Chain):
    def __init__(self, prev, dst, n, src, soff):
        self.prev, self.dst, self.n, self.src, self.soff = prev, dst, n, src, soff

    def read(self, k, st, w, kind):
        dom = st.ctx.dom
        c = in_range(dom, st, k, self.dst, self.n)
        if c is False:
            return self.prev.read(k, st, w, kind)
        j = off_add(dom, off_sub(dom, k, self.dst), self.soff)
        a = self.src.read(j, st, w, kind)
        if c is True:
            return a
        return ite_val(dom, c, a, self.prev.read(k, st, w, kind), 8 * w)


class LoopC(Chain):
    """effect of n loop iterations: iteration m stores val(m) at index i0 + c*m, for each write (i0, c, val)"""

    def __init__(self, prev, writes, n):
        self.prev, self.writes, self.n = prev, writes, n

    def read(self, k, st, w, kind):
        r = self.prev.read(k, st, w, kind)
        for i0, c, val in self.writes:
            d = isub(k, i0)
            if c < 0:
                d = imul(-1, d)
            q, rem = INT.fdivmod(d, abs(c), st)
            cond = st.simp(And(INT.eq(rem, 0), ile(0, q), ilt(q, self.n)))
            if cond is False:
                continue
            r = ite_val(INT, cond, val(q), r, 8 * w)
        return r


class IteC(Chain):
    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def read(self, k, st, w, kind):
        return ite_val(st.ctx.dom, self.c, self.a.read(k, st, w, kind), self.b.read(k, st, w, kind), 8 * w)


class PunC(Chain):
    """view of a chain of w2-byte elements as w-byte elements (w < w2: extract; w > w2: concat)"""

    def __init__(self, src, w2, w):
        self.src, self.w2, self.w = src, w2, w

    def word(self, dom, v):
        if isinstance(v, AddrPtr):
            return v.t
        if isinstance(v, FloatVal):
            b = v.bits
            if z3.is_app_of(b, z3.Z3_OP_ITE):
                return ite_val(dom, b.arg(0), self.word(dom, FloatVal(v.w, bits=b.arg(1))), self.word(dom, FloatVal(v.w, bits=b.arg(2))), v.w)
            b = z3.simplify(b)
            return b.as_signed_long() if z3.is_bv_value(b) else b if dom is BV else keep(z3.BV2Int(b, is_signed=True))
        return v

    def part(self, dom, e, w2, at, w):
        if is_sym(e) and z3.is_app_of(e, z3.Z3_OP_ITE):
            c, x, y = e.arg(0), *(q.as_long() if z3.is_int_value(q) else q for q in (e.arg(1), e.arg(2)))
            if isinstance(x, int) or isinstance(y, int) or z3.is_app_of(x, z3.Z3_OP_ITE) or z3.is_app_of(y, z3.Z3_OP_ITE):
                return ite_val(dom, c, self.part(dom, x, w2, at, w), self.part(dom, y, w2, at, w), 8 * w)
        return dom.extract(e, w2, at, w)

    def read(self, k, st, w, kind):
        dom = st.ctx.dom
        w2 = self.w2
        if w > w2:
            n = w // w2
            parts = [self.word(dom, self.src.read(off_add(dom, off_mul(dom, k, n), j), st, w2, 'i')) for j in range(n)]
            return dom.concat(parts, w2)
        n = w2 // w
        q, r = off_divmod(dom, k, n, st)
        e = self.word(dom, self.src.read(q, st, w2, 'i'))
        if isinstance(r, int):
            return self.part(dom, e, w2, r * w, w)
        out = self.part(dom, e, w2, 0, w)
        for j in range(1, n):
            out = ite_val(dom, dom.eq(r, j), self.part(dom, e, w2, j * w, w), out, 8 * w)
        return out


def off_add(dom, a, b):
    return dom.add(64, a, b, None) if dom is BV else iadd(a, b)


def off_sub(dom, a, b):
    return dom.sub(64, a, b, None) if dom is BV else isub(a, b)


def off_mul(dom, a, b):
    return dom.mul(64, a, b, None) if dom is BV else imul(a, b)


def off_divmod(dom, a, c, st=None):
    if isinstance(a, int):
        return a // c, a % c
    if dom is INT:
        return INT.fdivmod(a, c, st)
    if c == 1:
        return a, 0
    assert c & (c - 1) == 0
    s = c.bit_length() - 1
    return dom.ashr(64, a, s, None), dom.and_(64, a, c - 1, None)


def in_range(dom, st, k, lo, n):
    if dom is INT:
        return st.simp(And(ile(lo, k), ilt(k, iadd(lo, n))))
    return st.simp(And(dom.le(lo, k), dom.lt(k, off_add(dom, lo, n))))


def zero_of(w, kind):
    if kind == 'f':
        return FloatVal(8 * w, bits=z3.BitVecVal(0, 8 * w))
    return 0


def ite_val(dom, c, a, b, w=None):
    if c is True:
        return a
    if c is False:
        return b
    if a is b:
        return a
    if isinstance(a, (bool, z3.BoolRef)) and isinstance(b, (bool, z3.BoolRef)):
        if isinstance(a, bool) and isinstance(b, bool) and a == b:
            return a
        if a is True and b is False:
            return c
        if a is False and b is True:
            return Not(c)
        return keep(z3.If(c, zb(a), zb(b)))
    if isinstance(a, FloatVal) or isinstance(b, FloatVal):
        if isinstance(a, int) and a == 0:
            a = zero_of(b.w // 8, 'f')
        if isinstance(b, int) and b == 0:
            b = zero_of(a.w // 8, 'f')
        if not (isinstance(a, FloatVal) and isinstance(b, FloatVal)):
            raise MergeFail('float/int')
        if a.has_bits() and b.has_bits():
            return FloatVal(a.w, bits=keep(z3.If(c, a.bits, b.bits)))
        return FloatVal(a.w, fp=keep(z3.If(c, a.fp, b.fp)))
    if isinstance(a, Ptr) and isinstance(b, Ptr) and a.b == b.b:
        if isinstance(a.off, int) and isinstance(b.off, int) and a.off == b.off:
            return a
        return Ptr(a.b, dom.ite(c, a.off, b.off, 64) if dom is BV else dom.pick(c, a.off, b.off))
    if isinstance(a, (Ptr, AddrPtr)) and isinstance(b, (Ptr, AddrPtr)):
        if dom is INT and (isinstance(a, AddrPtr) or isinstance(b, AddrPtr)):
            return AddrPtr(dom.ite(c, addr_term(a), addr_term(b)))
        raise MergeFail('pointers')
    if dom is INT and (isinstance(a, (Ptr, AddrPtr)) or isinstance(b, (Ptr, AddrPtr))):
        x = addr_term(a) if isinstance(a, (Ptr, AddrPtr)) else a
        y = addr_term(b) if isinstance(b, (Ptr, AddrPtr)) else b
        if all(isinstance(v, (int, z3.ArithRef)) and not isinstance(v, bool) for v in (x, y)):
            return AddrPtr(dom.ite(c, x, y))
    if isinstance(a, FnPtr) and isinstance(b, FnPtr) and a.name == b.name:
        return a
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(ite_val(dom, c, x, y) for x, y in zip(a, b))
    if isinstance(a, (int, z3.ExprRef)) and isinstance(b, (int, z3.ExprRef)) and not isinstance(a, bool) and not isinstance(b, bool):
        if isinstance(a, z3.BoolRef) or isinstance(b, z3.BoolRef):
            raise MergeFail('bool/int')
        if dom is BV:
            return dom.ite(c, a, b, w)
        return dom.pick(c, a, b) if is_sym(a) and is_sym(b) else dom.ite(c, a, b)
    if isinstance(a, Undef) and isinstance(b, Undef):
        return a
    raise MergeFail('%r %r' % (type(a), type(b)))


_addr = {}


def addr_term(p):
    if isinstance(p, AddrPtr):
        return p.t
    if p.b == 0:
        return p.off
    v = _addr.get(p.b)
    if v is None:
        v = INT.var('addr!%d' % p.b, 4096, 1 << 62)
        _addr[p.b] = v
        _addr[v.get_id()] = p.b
    return iadd(v, p.off)


def addr_resolve(t):
    """address term -> Ptr if it is syntactically block address + offset"""
    if isinstance(t, int):
        return Ptr(0, t) if t == 0 else None
    l = to_lin(t)
    for k, (co, at) in l[1].items():
        b = _addr.get(('blk', k)) or _addr.get(k)
        if b is not None and co == 1:
            rest = from_lin((l[0], {x: v for x, v in l[1].items() if x != k}))
            return Ptr(b, rest)
    return None


# ---------------------------------------------------------------- blocks
class Seg:
    """array region: [start, start+size) bytes, elements of w bytes (w None: not decided yet)"""
    __slots__ = ('start', 'size', 'w', 'kind', 'chain')

    def __init__(self, start, size, w, kind, chain):
        self.start, self.size, self.w, self.kind, self.chain = start, size, w, kind, chain

    def with_chain(self, chain, w=None, kind=None):
        return Seg(self.start, self.size, w if w is not None else self.w, kind if kind is not None else self.kind, chain)


class Blk:
    __slots__ = ('id', 'size', 'cells', 'segs', 'default', 'alive', 'origin', 'const', 'name')

    def __init__(self, id, size, origin, default='undef', name=''):
        self.id, self.size, self.origin, self.default, self.name = id, size, origin, default, name
        self.cells = {}
        self.segs = []
        self.alive = True
        self.const = False

    def copy(self):
        b = Blk(self.id, self.size, self.origin, self.default, self.name)
        b.cells = dict(self.cells)
        b.segs = list(self.segs)
        b.alive = self.alive
        b.const = self.const
        return b


_blk = [0]


def new_bid():
    _blk[0] += 1
    return _blk[0]


VALID = set()


class State:
    __slots__ = ('ctx', 'pc', 'pcset', 'env', 'facts', 'mem', 'regs', 'exc', 'trace', 'serial', 'ghost')

    def __init__(self, ctx):
        self.ctx = ctx
        self.pc = []
        self.pcset = set()
        self.env = {}
        self.facts = []
        self.mem = {}
        self.regs = {}
        self.exc = None
        self.trace = ()
        self.ghost = {}

    def fork(self):
        s = State(self.ctx)
        s.pc = list(self.pc)
        s.pcset = set(self.pcset)
        s.env = dict(self.env)
        s.facts = list(self.facts)
        s.mem = dict(self.mem)
        s.regs = dict(self.regs)
        s.exc = self.exc
        s.trace = self.trace
        s.ghost = dict(self.ghost)
        return s

    def blk(self, bid):
        b = self.mem.get(bid)
        if b is None:
            b = self.ctx.ginit.get(bid)
            if b is None:
                b = self.ctx.make_global(bid)
            if b is None:
                return None
            self.mem[bid] = b
            if b.name in self.ctx.mod.mutated and b.origin == 'global':
                self.ctx.gmut.add(b.name)
        return b

    def wblk(self, bid):
        b = self.blk(bid).copy()
        self.mem[bid] = b
        return b

    def simp(self, c):
        d = self.decide(c)
        return c if d is None else d

    def decide(self, c, depth=0):
        if isinstance(c, bool):
            return c
        i = c.get_id()
        if i in self.pcset:
            return True
        l = lit_of(c)
        if l:
            lo, hi = interval(l[1], self.env)
            k = l[2]
            if l[0] == 'ge':
                if lo >= k:
                    return True
                if hi < k:
                    return False
            elif l[0] == 'le':
                if hi <= k:
                    return True
                if lo > k:
                    return False
            else:
                if lo == hi == k:
                    return True
                if k < lo or k > hi:
                    return False
                nid = Not(c).get_id()
                if nid in self.pcset:
                    return False
            return None
        if z3.is_not(c):
            d = self.decide(c.arg(0), depth)
            return None if d is None else (not d)
        if depth < 4:
            if z3.is_and(c):
                r = True
                for x in c.children():
                    d = self.decide(x, depth + 1)
                    if d is False:
                        return False
                    if d is None:
                        r = None
                return r
            if z3.is_or(c):
                r = False
                for x in c.children():
                    d = self.decide(x, depth + 1)
                    if d is True:
                        return True
                    if d is None:
                        r = None
                return r
        n = Not(c)
        if not isinstance(n, bool) and n.get_id() in self.pcset:
            return False
        return None

    def define(self, c):
        """assume a definition: true of every state, so that merging paths need not remember on which of them it was made"""
        if isinstance(c, bool):
            return
        if z3.is_and(c):
            for x in c.children():
                self.define(x)
            return
        VALID.add(keep(c).get_id())
        if self.decide(c) is not True:
            self.push(c)

    def assume(self, c):
        """adds c to the path condition; returns False if that is syntactically contradictory"""
        if c is True:
            return True
        if c is False:
            self.pc.append(z3.BoolVal(False))
            return False
        d = self.decide(c)
        if d is True:
            return True
        if d is False:
            self.pc.append(z3.BoolVal(False))
            return False
        if z3.is_and(c):
            ok = True
            for x in c.children():
                ok = self.assume(x) and ok
            return ok
        if z3.is_not(c) and z3.is_or(c.arg(0)):
            ok = True
            for x in c.arg(0).children():
                ok = self.assume(Not(x)) and ok
            return ok
        if z3.is_or(c):
            # unit propagation
            rest = [x for x in c.children() if self.decide(x) is not False]
            if len(rest) == 1:
                return self.assume(rest[0])
            if not rest:
                self.pc.append(z3.BoolVal(False))
                return False
        self.push(c)
        return True

    def push(self, c):
        self.pc.append(keep(c))
        self.pcset.add(c.get_id())
        l = lit_of(c)
        if l:
            kind, e, k = l
            lo, hi = self.env.get(e.get_id(), (-INF, INF))
            if kind == 'ge':
                lo = max(lo, k)
            elif kind == 'le':
                hi = min(hi, k)
            else:
                lo, hi = max(lo, k), min(hi, k)
            self.env[e.get_id()] = (lo, hi)
        elif z3.is_not(c):
            # e != k at the boundary of its interval
            l = lit_of(c.arg(0))
            if l and l[0] == 'eq':
                e, k = l[1], l[2]
                lo, hi = interval(e, self.env)
                if lo == k:
                    self.env[e.get_id()] = (k + 1, hi)
                elif hi == k:
                    self.env[e.get_id()] = (lo, k - 1)
