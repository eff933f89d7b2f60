"""Pre-states of contracts: the same `setup(S)` Python function builds them symbolically (all inputs)
and concretely (replay of solver models, boundary and random search)."""
import random
import struct
import z3
from .terms import *
from .mem import *
from .mem import Unsupported
from .world import *
from .world import TY, TYSIZE, FMT
from . import terms as T

RNG = {'i8': (-128, 127), 'u8': (0, 255), 'i16': (-32768, 32767), 'u16': (0, 65535), 'i32': (-2 ** 31, 2 ** 31 - 1), 'u32': (0, 2 ** 32 - 1),
       'i64': (-2 ** 63, 2 ** 63 - 1), 'u64': (0, 2 ** 64 - 1)}


class SymSetup(SymWorld):
    """S in setup(S), symbolic"""

    def init(self):
        self.vars = {}
        self.bufs = {}
        self.choices = {}
        self.choice_log = []

    def choose(self, name, options):
        options = list(options)
        d = self.choice(len(options)) if len(options) > 1 else 0
        self.choices[name] = d
        return options[d]

    def int(self, name, ty='i32', lo=None, hi=None, size=False):
        a, b = RNG[ty]
        lo = a if lo is None else raw(lo)
        hi = b if hi is None else raw(hi)
        if self.eng.dom is BV:
            w = int(ty[1:])
            v = keep(z3.BitVec(fresh_name('in_' + name), w))
            self.vars[name] = v
            return BVN(v, w, ty[0] == 'u') if True else v
        clo = lo if isinstance(lo, int) else a
        chi = hi if isinstance(hi, int) else b
        v = INT.var(fresh_name('in_' + name), clo, chi)
        if not isinstance(lo, int):
            self.assume(mkb(ile(lo, v)))
        if not isinstance(hi, int):
            self.assume(mkb(ile(v, hi)))
        self.vars[name] = v
        return mkn(v)

    def bool(self, name):
        v = keep(z3.Bool(fresh_name('in_' + name)))
        self.vars[name] = v
        return mkb(v)

    def f64(self, name):
        v = keep(z3.BitVec(fresh_name('in_' + name), 64))
        self.vars[name] = v
        return FloatVal(64, bits=v)

    def f32(self, name):
        v = keep(z3.BitVec(fresh_name('in_' + name), 32))
        self.vars[name] = v
        return FloatVal(32, bits=v)

    def obj(self, size, name='obj', cls=None):
        b = self.eng.new_block(self.st, size, 'arg', 'undef', name)
        p = Ptr(b.id, 0)
        if cls:
            self.set(p, 0, 'ptr', self.vt(cls))
        return p

    def vt(self, cls):
        return Ptr(self.ctx.glob_id('_ZTVN13DotnetLibrary%d%sE' % (len(cls), cls)), 16)

    def set(self, p, off, ty, v):
        b = self.st.wblk(p.b)
        v = self.lower(v, ty)
        kind = 'f' if ty[0] == 'f' else ('p' if ty == 'ptr' else 'i')
        o = p.off + off
        for i, s in enumerate(b.segs):
            if s.start <= o and (not isinstance(s.size, int) or o < s.start + s.size):
                q = (o - s.start) // TYSIZE[ty]
                b.segs[i] = s.with_chain(StoreC(s.chain, q, v))
                return
        b.cells[o] = (TYSIZE[ty], kind, v)

    def null(self):
        return NULL

    def buf(self, name, ty, n, lo=None, hi=None, size=None, zero=False, vals=None):
        """block of n elements with arbitrary contents (within [lo,hi])"""
        w = TYSIZE[ty]
        n = raw(n)
        sz = off_mul(self.eng.dom, n, w)
        b = self.eng.new_block(self.st, sz, 'arg', 'undef', name)
        kind = 'f' if ty[0] == 'f' else 'i'
        if vals is not None:
            ch = ConstC([self.lower(v, ty) for v in vals])
        elif zero:
            ch = ZeroC()
        else:
            rng = None
            if lo is not None or hi is not None:
                a, c = RNG[ty]
                rng = (a if lo is None else lo, c if hi is None else hi)
            ch = BaseC(self.eng.dom, w, kind, 'c_' + name, rng)
        b.segs.append(Seg(0, sz, w, kind, ch))
        p = Ptr(b.id, 0)
        self.bufs[name] = (p, ty, n)
        return p

    def inner(self, p, off, ty, count, name):
        """array region inside a record"""
        b = self.st.wblk(p.b)
        w = TYSIZE[ty]
        kind = 'f' if ty[0] == 'f' else 'i'
        ch = BaseC(self.eng.dom, w, kind, 'c_' + name)
        b.segs.append(Seg(off, w * count, w, kind, ch))
        self.bufs[name] = (Ptr(p.b, off), ty, count)

    def region(self, p, off, size, w=None):
        b = self.st.wblk(p.b)
        b.segs.append(Seg(off, size, w, 'i', BaseC(self.eng.dom, w or 1, 'i', 'reg')))

    def terminate(self, p, n):
        """C string of n characters: element n is zero, none before is"""
        b = self.st.wblk(p.b)
        s = b.segs[self.eng.find_seg(b, p.off)]
        if isinstance(raw(n), int) and isinstance(s.chain, ConstC):
            self.st.ghost[('nul', p.b)] = (raw(n),)
            return
        rd = self.reader(p, 'i32')
        self.zero_at(p, n)
        self.st.facts.append(forall(0, raw(n), lambda k: Not(INT.eq(raw(rd(mkn(k))), 0))))

    def zero_at(self, p, n):
        """element n of the wide characters at p is zero"""
        self.assume(self.reader(p, 'i32')(n) == 0)
        k = ('nul', p.b)
        b = self.st.blk(p.b)
        d = isub(p.off, b.segs[self.eng.find_seg(b, p.off)].start)
        self.st.ghost[k] = self.st.ghost.get(k, ()) + (iadd(raw(n), d // 4),)

    def glob(self, name):
        return Ptr(self.ctx.glob_id(name), 0)

    def set_glob(self, name, ty, v):
        p = self.glob(name)
        known = name in self.ctx.gmut
        self.st.blk(p.b)
        if not known:
            self.ctx.gmut.discard(name)     # an input, not a constant
        self.set(p, 0, ty, v)

    def fact(self, lo, hi, pred):
        """assume pred(k) for all lo<=k<hi"""
        self.st.facts.append(forall(raw(lo), raw(hi), lambda k: raw(pred(mkn(k)))))


class BVN:
    """marker: bit-vector input"""
    __slots__ = ('t', 'w', 'u')

    def __init__(self, t, w, u):
        self.t, self.w, self.u = t, w, u


INTERESTING = [0, 1, -1, 2, 3, 4, 5, 7, 8, 9, 10, 11, 12, 13, 16, 23, 24, 28, 29, 30, 31, 32, 59, 60, 61, 63, 64, 65, 99, 100, 127, 128, 129, 130, 255, 256, 257, 365, 366, 399, 400, 999, 1000, 1001,
               1899, 1900, 1999, 2000, 2001, 2019, 2020, 2100, 9998, 9999, 10000, 32767, 32768, 65535, 65536, 10 ** 6, 10 ** 7, 10 ** 9, 2 ** 30, 2 ** 31 - 2, 2 ** 31 - 1, 2 ** 31, 2 ** 31 + 1, 2 ** 32 - 1, 2 ** 32,
               2 ** 32 + 1, 36000000000, 864000000000, 922337203685477, 922337203685478, 3155378975999999999, 3155378976000000000, 2 ** 62, 2 ** 63 - 1, 2 ** 63, 2 ** 64 - 1]
FLOATS = [0.0, -0.0, 1.0, -1.0, 0.5, 1.5, 2.5, -0.5, -2.5, 0.1, 1e-300, 1e300, 5e-324, -5e-324, 2.2250738585072014e-308, 1.7976931348623157e308, -1.7976931348623157e308, float('inf'), float('-inf'), float('nan'),
          2147483647.0, 2147483648.0, -2147483648.0, -2147483649.0, 4294967296.0, 9223372036854775807.0, -9223372036854775808.0, 9223372036854774784.0, 1e19, 3.4e38, 1e-45, 1e16, 123.456, 922337203685477.0, 922337203685478.0, 2913943.0, 1e7, 4503599627370497.5, 0.49999999999999994]
CHARS = [ord(c) for c in 'aabbcABC xyz  0123456789+-.,:TtrueFals'] + [0, 9, 13, 10, 0x41, 0x5a, 0x7a, 0x85, 0xa0, 0x2000, 0x3000, 0x2028, 0x2029, 0x200a, 0x3c3, 0x1f, 0x7f, 0xff, 0x100, 0xffff, 0xfeff]


class RandProvider:
    def __init__(self, rng, small=True):
        self.r = rng
        self.past = []
        self.txt = None
        self.alpha = rng.choice([[97, 98], [97, 98, 99, 65, 66], [48, 49, 57, 32, 45, 43], CHARS, CHARS, [32, 9, 97], [97], [65, 97, 32]])

    smallmode = None

    def choice(self, name, n):
        return self.r.randrange(n)

    def int(self, name, lo, hi, size):
        r = self.r
        if size:
            m = r.random()
            v = r.randrange(0, 5) if m < 0.5 else r.randrange(0, 14) if m < 0.9 else r.randrange(0, 200)
            v = max(lo, min(hi, v))
            self.past.append(v)
            return v
        if self.smallmode is None:
            self.smallmode = r.random() < 0.55
        for _ in range(4):
            m = r.random()
            if self.smallmode and m < 0.9:
                m2 = r.random()
                v = r.choice(self.past) + r.choice([0, 0, 0, -1, 1, -2]) if self.past and m2 < 0.35 else r.randrange(-1, 4) if m2 < 0.85 else r.randrange(-2, 15)
            elif m < 0.30:
                v = r.randrange(-2, 9)
            elif m < 0.65:
                v = r.choice(INTERESTING)
                if r.random() < 0.3:
                    v = -v
                if r.random() < 0.2:
                    v += r.choice([-1, 1])
            elif m < 0.75:
                v = r.choice([lo, hi, lo + 1, hi - 1])
            elif m < 0.85 and self.past:
                v = r.choice(self.past) + r.choice([0, 0, 1, -1])
                if r.random() < 0.2:
                    v = hi - v
            elif m < 0.93:
                v = r.getrandbits(r.randrange(1, 65))
                if lo < 0 and r.random() < 0.4:
                    v = -v
            else:
                v = r.randint(lo, hi)
            if lo <= v <= hi:
                self.past.append(v)
                return v
        v = r.randint(lo, hi)
        return v

    def bool(self, name):
        return self.r.random() < 0.5

    def bits(self, name, w):
        r = self.r
        m = r.random()
        if m < 0.7:
            f = r.choice(FLOATS)
        elif m < 0.8:
            f = r.uniform(-10, 10)
        elif m < 0.9:
            f = float(r.randrange(-1000, 1000)) / r.choice([1, 2, 4, 10])
        else:
            return r.getrandbits(w)
        try:
            return struct.unpack('<Q', struct.pack('<d', f))[0] if w == 64 else struct.unpack('<I', struct.pack('<f', f))[0]
        except OverflowError:
            return 0x7f7fffff

    def fill(self, name, ty, n, lo, hi):
        r = self.r
        if ty[0] == 'f':
            return [self.bits(name, 8 * TYSIZE[ty]) for _ in range(n)]
        if ty == 'i32' or ty == 'u32':
            m = r.random()
            if m < 0.25 and self.past_buf():
                src = r.choice(self.past_buf())
                o = r.randrange(0, len(src) + 1)
                v = list(src[o:o + n])
                while len(v) < n:
                    v.append(r.choice(self.alpha))
            elif m < 0.35 and name.startswith('s'):
                t = r.choice(['True', 'False', 'true', ' true ', '123', '-1', '+5', '2147483648', '-2147483649', '256', '-129', '65536', '4294967296', '18446744073709551616', '9223372036854775808', '12 3', ' 42 ', '-', '+', 'abc', '0x10', '1.5', '99999999999999999999',
                              '1.02:03:04.005', '10:20', '7', '1:2:3', '-1:0:0', 'NaN', 'Infinity'])
                v = [ord(c) for c in t][:n]
                while len(v) < n:
                    v.append(r.choice([32, 48]))
            elif name.startswith('s') or name.startswith('c'):
                v = [r.choice(self.alpha) for _ in range(n)]
            else:
                v = [self.int(name, *RNG[ty], False) for _ in range(n)]
            self.bufs.append(v)
        else:
            v = [r.choice([0, 1, 2, 3, RNG[ty][0], RNG[ty][1], r.randint(*RNG[ty])]) for _ in range(n)]
        a, b = RNG[ty]
        a = a if lo is None else lo
        b = b if hi is None else hi
        return [min(b, max(a, x)) for x in v]

    bufs = None

    def past_buf(self):
        if self.bufs is None:
            self.bufs = []
        return self.bufs


class BigProvider(RandProvider):
    """large inputs: long contents that differ in few places, sizes and numbers around the constants of the code"""

    def __init__(self, rng, consts):
        RandProvider.__init__(self, rng)
        self.consts = consts or [0]
        self.smallmode = False
        self.sz = [c for c in self.consts if 8 <= c <= 12000] or [40]
        self.lim = rng.choice([8, 40, 200, 600, 2000])

    def int(self, name, lo, hi, size):
        r = self.r
        for _ in range(6):
            m = r.random()
            if size:
                v = r.choice(self.sz) + r.randrange(-2, 3) if m < 0.35 else r.randrange(0, self.lim) if m < 0.8 else r.choice(self.past) if m < 0.9 and self.past else r.randrange(0, 4)
            else:
                v = r.choice(self.consts) + r.choice([0, 0, 0, -1, 1]) if m < 0.3 else r.choice(self.past) + r.choice([0, 0, 0, -1, 1]) if m < 0.5 and self.past else \
                    r.randrange(0, max(1, max(self.past + [1]))) if m < 0.75 and max(self.past + [1]) < 2 ** 62 else r.randrange(-1, 4) if m < 0.85 else None
                if v is None:
                    return RandProvider.int(self, name, lo, hi, size)
                if r.random() < 0.05:
                    v = -v
            if lo <= v <= hi:
                self.past.append(v)
                return v
        return RandProvider.int(self, name, lo, hi, size)

    def fill(self, name, ty, n, lo, hi):
        r = self.r
        if ty[0] == 'f' or ty == 'ptr' or r.random() < 0.2:
            return RandProvider.fill(self, name, ty, n, lo, hi)
        a, b = RNG[ty]
        a = a if lo is None else lo
        b = b if hi is None else hi
        m = r.random()
        past = self.past_buf()
        if m < 0.5 and past:
            src = r.choice(past)
            o = r.choice([0, 0, 0, r.randrange(0, len(src) + 1)])
            v = list(src[o:o + n])
            c = v[-1] if v else r.choice(self.alpha)
            v += [c] * (n - len(v))
        elif m < 0.8:
            v = [r.choice(self.alpha)] * n
        else:
            pat = [r.choice(self.alpha) for _ in range(r.randrange(1, 5))]
            v = (pat * (n // len(pat) + 1))[:n]
        for _ in range(r.choice([0, 1, 1, 1, 2, 4])):
            if not n:
                break
            k = r.randrange(n) if r.random() < 0.5 else r.choice(self.past + self.sz) + r.randrange(-2, 3)
            if 0 <= k < n:
                v[k] = r.choice(CHARS if r.random() < 0.7 else self.consts)
                self.past += [v[k], v[k], k]
        v = [min(b, max(a, x)) for x in v]
        past.append(v)
        return v


class ModelProvider:
    """values of a solver model (with fallback), optionally mutated"""

    def __init__(self, model, S, rng=None, mutate=0.0):
        self.m, self.S, self.r, self.mut = model, S, rng or random.Random(1), mutate
        self.fb = RandProvider(self.r)
        self.fb.bufs = []

    def ev(self, t):
        return self.m.eval(t, model_completion=True)

    def choice(self, name, n):
        if name in self.S.choices:
            return self.S.choices[name]
        return self.fb.choice(name, n)

    def int(self, name, lo, hi, size):
        if name not in self.S.vars or (self.mut and self.r.random() < self.mut):
            return self.fb.int(name, lo, hi, size)
        v = self.ev(self.S.vars[name])
        if z3.is_int_value(v):
            return v.as_long()
        if z3.is_bv_value(v):
            return v.as_signed_long() if lo < 0 else v.as_long()
        return self.fb.int(name, lo, hi, size)

    def bool(self, name):
        if name not in self.S.vars:
            return self.fb.bool(name)
        return z3.is_true(self.ev(self.S.vars[name]))

    def bits(self, name, w):
        if name not in self.S.vars or (self.mut and self.r.random() < self.mut):
            return self.fb.bits(name, w)
        v = self.ev(self.S.vars[name])
        return v.as_long() if z3.is_bv_value(v) else 0

    def fill(self, name, ty, n, lo, hi):
        b = self.S.bufs.get(name)
        if b is None:
            return self.fb.fill(name, ty, n, lo, hi)
        p, ty0, _ = b
        blk = self.S.st.mem.get(p.b)
        out = []
        for s in blk.segs:
            if isinstance(p.off, int) and s.start == p.off:
                for k in range(n):
                    try:
                        v = s.chain.read(k, self.S.st, s.w, s.kind)
                        if isinstance(v, FloatVal):
                            v = v.bits
                        if isinstance(v, z3.ExprRef):
                            v = self.ev(v)
                            v = v.as_long() if z3.is_int_value(v) or z3.is_bv_value(v) else 0
                    except Exception:
                        v = 0
                    if ty[0] == 'u':
                        v &= (1 << (8 * TYSIZE[ty])) - 1
                    out.append(v)
                return out
        return self.fb.fill(name, ty, n, lo, hi)


MAXCON = 1 << 16


class ConSetup(ConWorld):
    """S in setup(S), concrete"""

    def __init__(self, provider):
        ConWorld.__init__(self, {})
        self.p = provider
        if isinstance(provider, RandProvider) and provider.bufs is None:
            provider.bufs = []
        self.next = 1
        self.globs = []
        self.desc = []
        self.rec = {}

    def choose(self, name, options):
        options = list(options)
        d = self.p.choice(name, len(options)) if len(options) > 1 else 0
        if d >= len(options):
            raise Reject()
        self.rec['choice:' + name] = d
        return options[d]

    def int(self, name, ty='i32', lo=None, hi=None, size=False):
        a, b = RNG[ty]
        lo = a if lo is None else lo
        hi = b if hi is None else hi
        if lo > hi:
            raise Reject()
        v = self.p.int(name, lo, hi, size)
        if not (lo <= v <= hi):
            raise Reject()
        self.desc.append((name, v))
        self.rec[name] = v
        return v

    def bool(self, name):
        v = self.p.bool(name)
        self.desc.append((name, v))
        self.rec[name] = v
        return v

    def f64(self, name):
        v = CF(64, self.p.bits(name, 64))
        self.desc.append((name, v.val()))
        self.rec[name] = v.bits
        return v

    def f32(self, name):
        v = CF(32, self.p.bits(name, 32))
        self.desc.append((name, v.val()))
        self.rec[name] = v.bits
        return v

    def newblk(self, size):
        if size > MAXCON or size < 0:
            raise Reject()
        b = CBlk(self.next, size)
        self.mem[b.id] = b
        self.next += 1
        return b

    def obj(self, size, name='obj', cls=None):
        b = self.newblk(size)
        # uninitialised bytes: a recognisable non-zero pattern
        b.data[:] = b'\xa5' * size
        p = CPtr(b.id, 0)
        if cls:
            self.set(p, 0, 'ptr', self.vt(cls))
        return p

    def vt(self, cls):
        return CPtr('_ZTVN13DotnetLibrary%d%sE' % (len(cls), cls), 16)

    def set(self, p, off, ty, v):
        if ty == 'ptr' and isinstance(v.b, str):
            b = self.mem[p.b]
            struct.pack_into('<Q', b.data, p.off + off, 0)
            b.rel[p.off + off] = ('s', v.b, v.off)
            return
        self.st_(p, off, ty, v)

    def null(self):
        return CNULL

    def buf(self, name, ty, n, lo=None, hi=None, size=None, zero=False, vals=None):
        w = TYSIZE[ty]
        if n < 0 or n * w > MAXCON:
            raise Reject()
        b = self.newblk(n * w)
        p = CPtr(b.id, 0)
        if ty == 'ptr' and vals is None:
            vals = [CNULL] * n
        if vals is None:
            vals = [0] * n if zero else self.p.fill(name, ty, n, lo, hi)
            self.rec[name] = [x.bits if isinstance(x, CF) else x for x in vals]
        for k, v in enumerate(vals):
            self.st_(p, k * w, ty, v)
        self.desc.append((name, list(vals)[:64]))
        return p

    def inner(self, p, off, ty, count, name):
        vals = self.p.fill(name, ty, count, None, None)
        self.rec[name] = list(vals)
        w = TYSIZE[ty]
        for k, v in enumerate(vals):
            self.st_(p, off + k * w, ty, v)

    def region(self, p, off, size, w=None):
        pass

    def terminate(self, p, n):
        for k in range(n):
            if self.ld(p, 4 * k, 'i32') == 0:
                self.st_(p, 4 * k, 'i32', 97)
        self.st_(p, 4 * n, 'i32', 0)

    def zero_at(self, p, n):
        self.st_(p, 4 * n, 'i32', 0)

    def glob(self, name):
        return CPtr(name, 0)

    def set_glob(self, name, ty, v):
        if name not in self.mem:
            self.mem[name] = CBlk(name, TYSIZE[ty])
        self.st_(CPtr(name, 0), 0, ty, v)

    def fact(self, lo, hi, pred):
        for k in range(lo, hi):
            if not pred(k):
                raise Reject()
