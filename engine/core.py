"""Symbolic executor generating proof obligations from LLVM IR."""
import heapq
import time
import z3
from fractions import Fraction
from . import ir
from .terms import *
from .mem import *
from .mem import Unsupported
from .prover import Solver, Fact, forall, symbols, subst, max_serial, sym_serial, auto_trigs
from . import terms as T


class Obl:
    __slots__ = ('name', 'kind', 'where', 'pc', 'facts', 'goal', 'status', 'time', 'backend', 'case', 'model')


class Ctx:
    def __init__(self, mod, dom=INT, solver=None):
        self.mod = mod
        self.dom = dom
        self.solver = solver or Solver()
        self.obls = []
        self.silent = 0
        self.ob_timeout = 10.0
        self.quick_timeout = 0.4
        self.ginit = {}
        self.inplace = None
        self.gmut = set()      # globals read as constant although some function writes them
        self.gids = {}
        self.gnames = {}
        self.contracts = {}        # mangled name -> summary function(eng, st, args) -> list of (st, outcome)
        self.used_contracts = set()
        self.inlined = set()
        self.case = ''
        self.func = ''
        self.qcache = {}
        self.max_paths = 4000
        self.loop_hints = []
        self.abstract_buffers = False
        self.loop_builder = None
        self.prove_lemmas = False
        self.opaque = False
        self.cur_args = None
        self.fail_limit = 25
        self.nfail = 0
        self.deadline = None
        self.stop_on_fail = False
        self.strict_overflow = False
        self.covers = {}

    # ------------------------------------------------------------ proving
    def prove_quick(self, st, goal, timeout=None, rounds=2):
        d = st.decide(goal)
        if d is not None:
            return d
        key = (len(st.pc), st.pc[-1].get_id() if st.pc else 0, hash(tuple(p.get_id() for p in st.pc)), goal.get_id(), len(st.facts), rounds)
        r = self.qcache.get(key)
        if r is None:
            res, _ = self.solver.check(st.pc + [Not(goal)], st.facts, timeout or self.quick_timeout, rounds=rounds, quick=True)
            r = res == 'unsat'
            self.qcache[key] = r
        return r

    def feasible(self, st, cond=True):
        d = st.decide(cond)
        if d is False:
            return False
        key = ('f', hash(tuple(p.get_id() for p in st.pc)), cond if isinstance(cond, bool) else cond.get_id(), len(st.facts))
        r = self.qcache.get(key)
        if r is None:
            res, _ = self.solver.check(st.pc + [cond], st.facts, self.quick_timeout, rounds=2, quick=True)
            r = res != 'unsat'
            self.qcache[key] = r
        return r

    def oblige(self, st, goal, name, kind, where=None, assume=True):
        """generate (and at once try to discharge) a proof obligation"""
        if self.deadline and time.time() > self.deadline:
            raise Unsupported('time budget of the function exhausted')
        if self.silent:
            if assume and goal is not True:
                if not st.assume(goal):
                    raise PathEnd()
            return True
        if goal is True or st.decide(goal) is True:
            self.record(st, goal, name, kind, where, 'proved', 0.0, 'simplifier')
            return True
        t = time.time()
        d = st.decide(goal)
        status, model, backend = 'unknown', None, 'z3'
        if isinstance(goal, bool) and goal is False or d is False:
            neg = True
        else:
            neg = Not(goal)
        self.solver.in_obl = True
        res, m = self.solver.check(st.pc + [neg], st.facts, self.ob_timeout / 4, want_model=True)
        if res == 'unknown' or (res == 'sat' and st.facts):
            res2, m2 = self.solver.check(st.pc + [neg], st.facts, self.ob_timeout, want_model=True, rounds=6, cap=3000)
            if res2 != 'unknown' or res == 'unknown':
                res, m = res2, m2
        self.solver.in_obl = False
        if res == 'unsat':
            status = 'proved'
        elif res == 'sat':
            status, model = 'failed', m
        else:
            if self.solver.use_cvc5_fallback and m is not None:
                r2 = self.solver.cvc5_check(m, self.ob_timeout)
                if r2 == 'unsat':
                    status, backend = 'proved', 'cvc5'
                    self.solver.stats['cvc5_proved'] += 1
        o = self.record(st, goal, name, kind, where, status, time.time() - t, backend)
        o.model = model
        if status != 'proved':
            self.nfail += 1
            if self.nfail >= self.fail_limit:
                raise Unsupported('too many failed obligations')
            if isinstance(goal, bool) or d is False:
                raise PathEnd()
        if assume:
            if not st.assume(goal):
                raise PathEnd()
        return status == 'proved'

    def record(self, st, goal, name, kind, where, status, dt, backend):
        o = Obl()
        o.name, o.kind, o.where, o.goal, o.status, o.time, o.backend = name, kind, where, goal, status, dt, backend
        o.case = self.case
        o.model = None
        if status != 'proved':
            o.pc, o.facts = list(st.pc), list(st.facts)
        else:
            o.pc = o.facts = None
        self.obls.append(o)
        return o

    # ------------------------------------------------------------ globals
    def glob_id(self, name):
        b = self.gids.get(name)
        if b is None:
            b = new_bid()
            self.gids[name] = b
            self.gnames[b] = name
        return b

    def make_global(self, bid):
        name = self.gnames.get(bid)
        if name is None:
            return None
        g = self.mod.globals.get(name)
        b = Blk(bid, None, 'global', 'zero', name)
        if g is None or g.init is None:
            b.size = 0 if g is None else self.mod.size(g.type)
            b.default = 'undef'
            self.ginit[bid] = b
            return b
        b.size = self.mod.size(g.type)
        b.const = g.const
        self.fill_const(b, 0, g.type, g.init)
        self.ginit[bid] = b
        return b

    def new_typed_segs(self, b, off, t, chainf):
        """array-of-scalar regions inside type t become segments"""
        rt = self.mod.resolve(t)
        if rt[0] == 'arr':
            et = self.mod.resolve(rt[2])
            if et[0] in ('i', 'f32', 'f64', 'ptr') and rt[1] >= 1:
                w = self.mod.size(et)
                kind = 'f' if et[0] in ('f32', 'f64') else ('p' if et[0] == 'ptr' else 'i')
                b.segs.append(Seg(off, w * rt[1], w, kind, chainf(w, kind)))
                return
            es = self.mod.size(et)
            for i in range(rt[1]):
                self.new_typed_segs(b, off + i * es, et, chainf)
        elif rt[0] == 'st':
            offs, _ = self.mod.layout(rt)
            for o, x in zip(offs, rt[1]):
                self.new_typed_segs(b, off + o, x, chainf)

    def fill_const(self, b, off, t, v):
        rt = self.mod.resolve(t)
        k = v[0]
        if k == 'zero' or (k == 'undef'):
            self.new_typed_segs(b, off, t, lambda w, kind: ZeroC())
            return
        if rt[0] == 'arr':
            et = self.mod.resolve(rt[2])
            w = self.mod.size(et)
            if k == 'cstr':
                vals = [x - 256 if x > 127 else x for x in v[2]]
                b.segs.append(Seg(off, rt[1], 1, 'i', ConstC(vals)))
                return
            if et[0] in ('i', 'f32', 'f64') and rt[1] >= 1:
                vals = [self.const_val(x) for x in v[2]]
                kind = 'f' if et[0] != 'i' else 'i'
                b.segs.append(Seg(off, w * rt[1], w, kind, ConstC(vals)))
                return
            for i, x in enumerate(v[2]):
                self.fill_const(b, off + i * w, et, x)
            return
        if rt[0] == 'st':
            offs, _ = self.mod.layout(rt)
            for o, x, xt in zip(offs, v[2], rt[1]):
                self.fill_const(b, off + o, xt, x)
            return
        n = self.mod.size(rt)
        kind = 'f' if rt[0] in ('f32', 'f64') else ('p' if rt[0] == 'ptr' else 'i')
        b.cells[off] = (n, kind, self.const_val(v, rt))

    def const_val(self, v, t=None):
        k = v[0]
        if k == 'const':
            rt = self.mod.resolve(v[1])
            if rt[0] == 'f64':
                return float_const(64, v[2])
            if rt[0] == 'f32':
                return float_const(32, v[2])
            return v[2]
        if k == 'null':
            return NULL
        if k == 'glb':
            return self.glob_val(v[1])
        if k == 'zero':
            rt = self.mod.resolve(v[1])
            return NULL if rt[0] == 'ptr' else (float_const(64, '0x0') if rt[0] == 'f64' else float_const(32, '0x0') if rt[0] == 'f32' else 0)
        if k == 'undef':
            return UNDEF
        if k == 'cgep':
            base = self.const_val(v[2])
            off = base.off
            t = v[1]
            first = True
            for ix in v[3]:
                i = ix[2]
                if first:
                    off += i * self.mod.size(t)
                    first = False
                else:
                    rt = self.mod.resolve(t)
                    if rt[0] == 'st':
                        off += self.mod.layout(rt)[0][i]
                        t = rt[1][i]
                    else:
                        off += i * self.mod.size(rt[2])
                        t = rt[2]
            return Ptr(base.b, off)
        raise Unsupported('const %r' % (v,))

    def glob_val(self, name):
        name2 = self.mod.aliases.get(name, name)
        if name2 in self.mod.funcs or name2 in self.mod.decls:
            return FnPtr(name2)
        return Ptr(self.glob_id(name2), 0)


class Frame:
    __slots__ = ('f', 'blocks', 'succ', 'pred', 'idx', 'loops', 'depth', 'allocas', 'live')

    def __init__(self, f, mod, depth):
        self.f = f
        self.blocks, self.succ, self.pred, self.idx, self.loops, self.live = ir.cfg(f, mod)
        self.depth = depth


class Engine:
    def __init__(self, ctx):
        self.ctx = ctx
        self.mod = ctx.mod
        self.dom = ctx.dom
        self.frames = []
        from . import externs
        self.ext = externs.table
        self.ext_pat = externs.patterns
        self.merge_joins = True
        self.unroll_limit = 72
        self.unroll_all = False
        self.npaths = 0

    # ------------------------------------------------------------ operands
    def neutral(self):
        """a state without assumptions, for contents readers that outlive the state they were made in"""
        n = State(self.ctx)
        return n

    def val(self, st, o):
        k = o[0]
        if k == 'loc':
            try:
                v = st.regs[o[2]]
            except KeyError:
                raise Unsupported('undefined register %' + o[2])
            return v
        return self.ctx.const_val(o)

    def ival(self, st, o, w):
        v = self.val(st, o)
        if isinstance(v, Undef):
            return self.fresh_scalar(('i', w)) if w > 1 else keep(z3.Bool(fresh_name('undef')))
        return v

    def fresh_scalar(self, t, name='nd'):
        t = self.mod.resolve(t)
        if t[0] == 'i':
            if t[1] == 1:
                return keep(z3.Bool(fresh_name(name)))
            return self.dom.fresh(name, t[1])
        if t[0] == 'f64':
            return FloatVal(64, bits=keep(z3.BitVec(fresh_name(name), 64)))
        if t[0] == 'f32':
            return FloatVal(32, bits=keep(z3.BitVec(fresh_name(name), 32)))
        if t[0] == 'ptr':
            return AddrPtr(INT.var(fresh_name(name), 0, 1 << 62))
        raise Unsupported('fresh %r' % (t,))

    def where(self, ins):
        f = self.frames[-1].f if self.frames else None
        ln = self.mod.line_of(ins) if ins is not None else None
        return '%s:%s' % (f.name if f else '?', ln)

    # ------------------------------------------------------------ memory
    def resolve_ptr(self, st, p, ins, what):
        if isinstance(p, Ptr):
            if p.b == 0:
                self.ctx.oblige(st, False, what + ': null pointer is not dereferenced', 'memory', self.where(ins))
                raise PathEnd()
            return p
        if isinstance(p, AddrPtr):
            t = p.t
            r = addr_resolve(t)
            if r is None and not isinstance(t, int) and z3.is_app_of(t, z3.Z3_OP_ITE):
                # choose by decided conditions
                d = st.decide(t.arg(0))
                if d is not None:
                    return self.resolve_ptr(st, AddrPtr(t.arg(1) if d else t.arg(2)), ins, what)
            if r is not None:
                if r.b == 0:
                    return self.resolve_ptr(st, NULL, ins, what)
                return r
            raise Unsupported('dereference of a pointer of unknown provenance at ' + self.where(ins))
        if isinstance(p, Undef):
            self.ctx.oblige(st, False, what + ': uninitialised pointer is not dereferenced', 'memory', self.where(ins))
            raise PathEnd()
        raise Unsupported('pointer %r' % (p,))

    def live_blk(self, st, p, ins, what):
        b = st.blk(p.b)
        if b is None or not b.alive:
            self.ctx.oblige(st, False, what + ': memory is still allocated', 'memory', self.where(ins))
            raise PathEnd()
        return b

    def find_seg(self, b, off):
        if isinstance(off, int):
            best = None
            for i, s in enumerate(b.segs):
                if off >= s.start:
                    if isinstance(s.size, int):
                        if off < s.start + s.size:
                            return i
                    else:
                        best = i
            if best is not None:
                return best
            # one past the end of a whole-block segment, or into nowhere
            if len(b.segs) == 1 and b.segs[0].start == 0 and not b.cells and b.segs[0].size is b.size:
                return 0
            return None
        if len(b.segs) == 1:
            return 0
        if self.dom is INT:
            c = to_lin(off)[0]
        else:
            c = 0
            # constant part of a bv sum
            if z3.is_app_of(off, z3.Z3_OP_BADD) and z3.is_bv_value(off.arg(0)):
                c = off.arg(0).as_signed_long()
        best = None
        for i, s in enumerate(b.segs):
            if s.start <= c and (best is None or s.start > b.segs[best].start):
                best = i
        return best

    def promote(self, st, bid, w, kind):
        """a small zeroed heap block kept as separate cells becomes an array of elements of width w"""
        b = st.wblk(bid)
        if b.default != 'zero' or b.origin != 'heap' or not isinstance(b.size, int) or any(o % w or c[0] != w or c[1] != kind for o, c in b.cells.items()):
            return b
        ch = ZeroC()
        for o, c in sorted(b.cells.items()):
            ch = StoreC(ch, o // w, c[2])
        b.cells.clear()
        b.segs.append(Seg(0, b.size, w, kind, ch))
        return b

    def seg_access(self, st, b, off, n, ins, what):
        """bounds obligation; returns (segment index, byte offset relative to the segment)"""
        si = self.find_seg(b, off)
        if si is None:
            return None, None
        s = b.segs[si]
        if isinstance(s.chain, OpaqueC):
            s.chain.read(0, st, 1, 'i')
        rel = off_sub(self.dom, off, s.start)
        if isinstance(n, int) and n == 0:
            return si, rel
        ok = And(self.dom.le(0, rel), self.dom.le(off_add(self.dom, rel, n), s.size))
        if ok is not True:
            self.ctx.oblige(st, ok, what + ' stays inside the object', 'memory', self.where(ins))
        return si, rel

    def set_width(self, st, bid, si, w, kind):
        b = st.wblk(bid)
        s = b.segs[si]
        ch = s.chain
        if isinstance(ch, LazyC):
            ch = BaseC(self.dom, w, kind, 'u')
        b.segs[si] = Seg(s.start, s.size, w, kind, ch)
        return b

    def index_of(self, st, s, rel, w, ins, what):
        q, r = off_divmod(self.dom, rel, w, st)
        if isinstance(r, int):
            return q, r
        if self.ctx.prove_quick(st, self.dom.eq(r, 0)):
            return q, 0
        return q, r

    def load(self, st, p, t, ins=None, what='read'):
        t = self.mod.resolve(t)
        p = self.resolve_ptr(st, p, ins, what)
        b = self.live_blk(st, p, ins, what)
        n = self.mod.size(t)
        kind = 'f' if t[0] in ('f32', 'f64') else ('p' if t[0] == 'ptr' else 'i')
        if t[0] in ('st', 'arr'):
            raise Unsupported('aggregate load')
        if not isinstance(p.off, int) and not b.segs:
            b = self.promote(st, p.b, n, kind)
        si, rel = self.seg_access(st, b, p.off, n, ins, what)
        if si is None:
            return self.to_type(st, self.load_cell(st, b, p, n, kind, ins, what), t)
        s = b.segs[si]
        if s.w is None:
            b = self.set_width(st, p.b, si, n, kind)
            s = b.segs[si]
        v = self.seg_read(st, s, rel, n, kind, ins, what)
        return self.to_type(st, v, t)

    def seg_read(self, st, s, rel, n, kind, ins, what):
        q, r = self.index_of(st, s, rel, min(s.w, n), ins, what)
        if isinstance(r, int) and r == 0:
            if s.w == n:
                v = s.chain.read(q, st, s.w, s.kind)
                return self.conv_kind(v, s.kind, kind, n)
            if s.w < n:
                # q counts elements of the region; the access covers several of them
                parts = [s.chain.read(off_add(self.dom, q, j), st, s.w, 'i') for j in range(n // s.w)]
                return self.conv_kind(self.dom.concat(parts, s.w), 'i', kind, n)
            return self.conv_kind(PunC(s.chain, s.w, n).read(q, st, n, 'i'), 'i', kind, n)
        # unaligned: through bytes
        src = s.chain if s.w == 1 else PunC(s.chain, s.w, 1)
        parts = [src.read(off_add(self.dom, rel, j), st, 1, 'i') for j in range(n)]
        return self.conv_kind(self.dom.concat(parts, 1), 'i', kind, n)

    def conv_kind(self, v, k1, k2, n):
        if k2 == 'f' and not isinstance(v, FloatVal):
            if isinstance(v, int):
                return FloatVal(8 * n, bits=z3.BitVecVal(v, 8 * n))
            if self.dom is BV:
                return FloatVal(8 * n, bits=v)
            return FloatVal(8 * n, bits=keep(z3.Int2BV(v, 8 * n)))
        if k2 == 'i' and isinstance(v, FloatVal):
            b = z3.simplify(v.bits)
            if z3.is_bv_value(b):
                return b.as_signed_long()
            if self.dom is BV:
                return self.dom.S(b)
            return keep(z3.BV2Int(b, is_signed=True))
        if k2 == 'p' and isinstance(v, (int, z3.ExprRef)):
            if isinstance(v, int):
                return NULL if v == 0 else AddrPtr(v)
            if self.dom is BV:
                raise Unsupported('pointer from bits')
            r = addr_resolve(v)
            return r if r is not None else AddrPtr(v)
        if k2 == 'i' and isinstance(v, (Ptr, AddrPtr)):
            if self.dom is BV:
                if isinstance(v, Ptr) and v.b == 0:
                    return 0
                raise Unsupported('bits of pointer')
            return addr_term(v)
        return v

    def to_type(self, st, v, t):
        if t[0] == 'i' and t[1] == 1 and not isinstance(v, (bool, z3.BoolRef)):
            return self.dom.trunc(8, 1, v, st)
        return v

    def load_cell(self, st, b, p, n, kind, ins, what):
        off = p.off
        if not isinstance(off, int):
            raise Unsupported('symbolic offset into a record at ' + self.where(ins))
        if not (0 <= off and (off + n <= b.size if isinstance(b.size, int) else True)):
            self.ctx.oblige(st, False, what + ' stays inside the object', 'memory', self.where(ins))
            raise PathEnd()
        c = b.cells.get(off)
        if c is not None and c[0] == n:
            return self.conv_kind(c[2], c[1], kind, n)
        over = [(o, x) for o, x in b.cells.items() if o < off + n and o + x[0] > off]
        if not over:
            if b.default == 'zero':
                return NULL if kind == 'p' else zero_of(n, kind)
            t = ('ptr',) if kind == 'p' else (('f64',) if n == 8 else ('f32',)) if kind == 'f' else ('i', 8 * n)
            v = self.fresh_scalar(t, 'undef')
            wb = st.wblk(b.id)
            wb.cells[off] = (n, kind, v)
            return v
        if len(over) == 1 and over[0][0] <= off and over[0][0] + over[0][1][0] >= off + n:
            o, x = over[0]
            v = self.conv_kind(x[2], x[1], 'i', x[0])
            return self.conv_kind(self.dom.extract(v, x[0], off - o, n), 'i', kind, n)
        parts = []
        for j in range(n):
            parts.append(self.cell_byte(st, b, off + j, ins, what))
        return self.conv_kind(self.dom.concat(parts, 1), 'i', kind, n)

    def cell_byte(self, st, b, off, ins, what):
        for o, x in b.cells.items():
            if o <= off < o + x[0]:
                v = self.conv_kind(x[2], x[1], 'i', x[0])
                return v if x[0] == 1 else self.dom.extract(v, x[0], off - o, 1)
        if b.default == 'zero':
            return 0
        return self.dom.fresh('undef', 8)

    def store(self, st, p, t, v, ins=None, what='write'):
        t = self.mod.resolve(t)
        p = self.resolve_ptr(st, p, ins, what)
        b = self.live_blk(st, p, ins, what)
        if b.const:
            self.ctx.oblige(st, False, what + ': constant data is not modified', 'memory', self.where(ins))
            raise PathEnd()
        n = self.mod.size(t)
        kind = 'f' if t[0] in ('f32', 'f64') else ('p' if t[0] == 'ptr' else 'i')
        if t[0] in ('st', 'arr'):
            raise Unsupported('aggregate store')
        if isinstance(v, Undef):
            v = self.fresh_scalar(t)
        if isinstance(v, (bool, z3.BoolRef)):
            v = self.dom.b2i(v, 8)
        if not isinstance(p.off, int) and not b.segs:
            b = self.promote(st, p.b, n, kind)
        si, rel = self.seg_access(st, b, p.off, n, ins, what)
        if si is None:
            self.store_cell(st, p.b, p.off, n, kind, v, ins, what)
            return
        s = b.segs[si]
        if s.w is None:
            b = self.set_width(st, p.b, si, n, kind)
            s = b.segs[si]
        self.seg_write(st, p.b, si, rel, n, kind, v, ins, what)

    def seg_write(self, st, bid, si, rel, n, kind, v, ins, what):
        b = st.wblk(bid)
        s = b.segs[si]
        if isinstance(s.chain, OpaqueC):
            s.chain.read(0, st, n, kind)
        q, r = self.index_of(st, s, rel, min(s.w, n), ins, what)
        dom = self.dom
        if s.kind == 'i' and kind == 'p':
            v = self.conv_kind(v, 'p', 'i', n)
            kind = 'i'
        if s.kind == 'p' and isinstance(v, (Ptr, AddrPtr)):
            v = self.conv_kind(v, 'p', 'i', n)
        if isinstance(r, int) and r == 0 and s.w == n:
            b.segs[si] = s.with_chain(StoreC(s.chain, q, self.conv_kind(v, kind, s.kind, n)))
            if n == 4 and isinstance(v, int) and v == 0:
                # a place where a text may end (a candidate only: whoever uses it proves it)
                g = st.ghost.get(('nul', bid), ())
                if not any(x is q or (isinstance(x, int) and isinstance(q, int) and x == q) or (z3.is_expr(x) and z3.is_expr(q) and x.eq(q)) for x in g):
                    st.ghost[('nul', bid)] = (q,) + tuple(g)[:3]
            return
        v = self.conv_kind(v, kind, 'i', n)
        if s.w == 1:
            ch = s.chain
            for j in range(n):
                ch = StoreC(ch, off_add(dom, rel, j), dom.extract(v, n, j, 1) if n > 1 else v)
            b.segs[si] = s.with_chain(ch)
            return
        if s.w > n and isinstance(r, int) and r == 0:
            # sub-element store: read-modify-write
            k = s.w // n
            eq, er = off_divmod(dom, q, k, st)
            old = s.chain.read(eq, st, s.w, s.kind)
            old = self.conv_kind(old, s.kind, 'i', s.w)
            parts = [dom.extract(old, s.w, j * n, n) for j in range(k)]
            np = [ite_val(dom, dom.eq(er, j), v, parts[j], 8 * n) for j in range(k)]
            b.segs[si] = s.with_chain(StoreC(s.chain, eq, self.conv_kind(dom.concat(np, n), 'i', s.kind, s.w)))
            return
        if n > s.w and isinstance(r, int):
            pass
        # convert to byte view
        ch = PunC(s.chain, s.w, 1)
        for j in range(n):
            ch = StoreC(ch, off_add(dom, rel, j), dom.extract(v, n, j, 1) if n > 1 else v)
        b.segs[si] = Seg(s.start, s.size, 1, 'i', ch)

    def store_cell(self, st, bid, off, n, kind, v, ins, what):
        b = st.wblk(bid)
        if not isinstance(off, int):
            raise Unsupported('symbolic offset into a record at ' + self.where(ins))
        if not (0 <= off and (off + n <= b.size if isinstance(b.size, int) else True)):
            self.ctx.oblige(st, False, what + ' stays inside the object', 'memory', self.where(ins))
            raise PathEnd()
        c = b.cells.get(off)
        if c is None or c[0] != n:
            over = [(o, x) for o, x in b.cells.items() if o < off + n and o + x[0] > off]
            for o, x in over:
                if o < off or o + x[0] > off + n:
                    xv = self.conv_kind(x[2], x[1], 'i', x[0])
                    for j in range(x[0]):
                        if not (off <= o + j < off + n):
                            b.cells[o + j] = (1, 'i', self.dom.extract(xv, x[0], j, 1))
                if o in b.cells and b.cells[o] is x:
                    del b.cells[o]
        b.cells[off] = (n, kind, v)

    def byte_chain(self, s):
        return s.chain if s.w == 1 else PunC(s.chain, s.w, 1)

    def memcpy(self, st, d, s, n, ins, overlap_ok):
        if isinstance(n, int) and n == 0:
            return
        what = 'memmove' if overlap_ok else 'memcpy'
        dom = self.dom
        if not isinstance(n, int):
            # a copy of zero bytes touches nothing
            if not self.ctx.prove_quick(st, dom.lt(0, n)):
                if self.ctx.prove_quick(st, dom.le(0, n)):
                    pass
                else:
                    self.ctx.oblige(st, dom.le(0, n), what + ' size is not negative', 'memory', self.where(ins))
        # null with n == 0 allowed in practice
        for q in (d, s):
            if isinstance(q, Ptr) and q.b == 0:
                self.ctx.oblige(st, dom.eq(n, 0), what + ': null pointer is not dereferenced', 'memory', self.where(ins))
                return
        d = self.resolve_ptr(st, d, ins, what)
        s = self.resolve_ptr(st, s, ins, what)
        db = self.live_blk(st, d, ins, what)
        sb = self.live_blk(st, s, ins, what)
        if db.const:
            self.ctx.oblige(st, dom.eq(n, 0), what + ': constant data is not modified', 'memory', self.where(ins))
            return
        ssi, srel = self.seg_access(st, sb, s.off, n, ins, what + ' source')
        dsi, drel = self.seg_access(st, db, d.off, n, ins, what + ' destination')
        if d.b == s.b and not overlap_ok and not (isinstance(n, int) and isinstance(d.off, int) and isinstance(s.off, int) and
                                                  (d.off + n <= s.off or s.off + n <= d.off)):
            g = Or(dom.le(n, 0), dom.le(off_add(dom, d.off, n), s.off), dom.le(off_add(dom, s.off, n), d.off), )
            self.ctx.oblige(st, g, 'memcpy ranges do not overlap', 'memory', self.where(ins))
        if ssi is None and dsi is None:
            if not isinstance(n, int):
                raise Unsupported('symbolic-size copy of a record')
            self.copy_cells(st, d, s, n, ins)
            return
        if ssi is None:
            if not isinstance(n, int):
                # scalar object as source of a symbolic-size copy: treat by bytes
                raise Unsupported('symbolic-size copy from a record')
            seg = db.segs[dsi]
            w = seg.w
            if w is None:
                # width of the source cell
                c = sb.cells.get(s.off)
                w = c[0] if c and n % c[0] == 0 else 1
                kind = c[1] if c else 'i'
                db = self.set_width(st, d.b, dsi, w, 'f' if kind == 'f' else 'i')
                seg = db.segs[dsi]
            if n > 64:
                raise Unsupported('large record copy')
            step = w if n % w == 0 else 1
            for j in range(0, n, step):
                v = self.load_cell(st, st.blk(s.b), Ptr(s.b, s.off + j), step, seg.kind if step == w else 'i', ins, what)
                self.seg_write(st, d.b, dsi, off_add(dom, drel, j), step, seg.kind if step == w else 'i', v, ins, what)
            return
        if dsi is None:
            if not isinstance(n, int):
                raise Unsupported('symbolic-size copy into a record')
            seg = sb.segs[ssi]
            w = seg.w
            if w is None:
                w = n if n in (1, 2, 4, 8) else 1
                sb = self.set_width(st, s.b, ssi, w, 'i')
                seg = sb.segs[ssi]
            step = n if n in (1, 2, 4, 8) else (w if n % w == 0 else 1)
            for j in range(0, n, step):
                v = self.seg_read(st, seg, off_add(dom, srel, j), step, seg.kind if step == w else 'i', ins, what)
                self.store_cell(st, d.b, d.off + j, step, seg.kind if step == w else 'i', v, ins, what)
            return
        seg = sb.segs[ssi]
        dseg = db.segs[dsi]
        w = seg.w or dseg.w
        kind = seg.kind if seg.w else dseg.kind
        if w is None:
            w, kind = 1, 'i'
        if seg.w is None:
            sb = self.set_width(st, s.b, ssi, w, kind)
            seg = sb.segs[ssi]
            if d.b == s.b:
                db = st.blk(d.b)
                dseg = db.segs[dsi]
        if dseg.w is None:
            db = self.set_width(st, d.b, dsi, seg.w, seg.kind)
            dseg = db.segs[dsi]
        schain, dchain = seg.chain, dseg.chain
        w, kind = dseg.w, dseg.kind
        if seg.w != dseg.w or (seg.kind == 'f') != (dseg.kind == 'f'):
            # common byte view
            schain = self.byte_chain(seg)
            dchain = self.byte_chain(dseg)
            w, kind = 1, 'i'
        iq = []
        for x in (drel, srel, n):
            q, r = off_divmod(dom, x, w, st)
            if not isinstance(r, int) and self.ctx.prove_quick(st, dom.eq(r, 0)):
                r = 0
            iq.append((q, r))
        if any(not (isinstance(r, int) and r == 0) for q, r in iq):
            if w != 1:
                schain = schain if w == 1 else PunC(schain, w, 1)
                dchain = dchain if w == 1 else PunC(dchain, w, 1)
                w, kind = 1, 'i'
                iq = [(drel, 0), (srel, 0), (n, 0)]
        b = st.wblk(d.b)
        b.segs[dsi] = Seg(dseg.start, dseg.size, w, kind, CopyC(dchain, iq[0][0], iq[2][0], schain, iq[1][0]))

    def copy_cells(self, st, d, s, n, ins):
        sb = st.blk(s.b)
        todo = []
        j = 0
        so = s.off
        if not isinstance(so, int) or not isinstance(d.off, int):
            raise Unsupported('symbolic offset record copy')
        while j < n:
            c = sb.cells.get(so + j)
            if c is not None and j + c[0] <= n:
                todo.append((j, c))
                j += c[0]
                continue
            over = [(o, x) for o, x in sb.cells.items() if o <= so + j < o + x[0]]
            if over:
                todo.append((j, (1, 'i', self.cell_byte(st, sb, so + j, ins, 'copy'))))
                j += 1
            else:
                # gap up to the next cell
                nx = min([o for o in sb.cells if o > so + j] + [so + n]) - so
                if sb.default == 'zero':
                    k = j
                    while k < nx:
                        m = 8 if nx - k >= 8 else 4 if nx - k >= 4 else 1
                        todo.append((k, (m, 'i', 0)))
                        k += m
                j = nx
        for j, c in todo:
            self.store_cell(st, d.b, d.off + j, c[0], c[1], c[2], ins, 'copy')

    def memset(self, st, p, byte, n, ins):
        if isinstance(n, int) and n == 0:
            return
        dom = self.dom
        if isinstance(p, Ptr) and p.b == 0:
            self.ctx.oblige(st, dom.eq(n, 0), 'memset: null pointer is not dereferenced', 'memory', self.where(ins))
            return
        if not isinstance(n, int):
            self.ctx.oblige(st, dom.le(0, n), 'memset size is not negative', 'memory', self.where(ins))
        p = self.resolve_ptr(st, p, ins, 'memset')
        b = self.live_blk(st, p, ins, 'memset')
        si, rel = self.seg_access(st, b, p.off, n, ins, 'memset')
        if si is None:
            if not isinstance(n, int):
                raise Unsupported('symbolic-size fill of a record')
            if not (0 <= p.off and p.off + n <= b.size):
                self.ctx.oblige(st, False, 'memset stays inside the object', 'memory', self.where(ins))
                raise PathEnd()
            b = st.wblk(p.b)
            if p.off == 0 and n == b.size and byte == 0:
                b.cells = {}
                b.default = 'zero'
                return
            for j in range(0, n):
                self.store_cell(st, p.b, p.off + j, 1, 'i', byte, ins, 'memset')
            return
        s = b.segs[si]
        if isinstance(byte, int) and byte == 0 and s.w is None and isinstance(rel, int) and rel == 0:
            if isinstance(s.chain, ZeroC):
                return
            if (isinstance(n, int) and isinstance(s.size, int) and n == s.size) or (is_sym(n) and is_sym(s.size) and n.get_id() == s.size.get_id()) or \
                    self.ctx.prove_quick(st, dom.eq(n, s.size)):
                b = st.wblk(p.b)
                b.segs[si] = s.with_chain(ZeroC())
                return
        if s.w is None:
            b = self.set_width(st, p.b, si, 1, 'i')
            s = b.segs[si]
        iq = []
        for x in (rel, n):
            q, r = off_divmod(dom, x, s.w, st)
            if not isinstance(r, int) and self.ctx.prove_quick(st, dom.eq(r, 0)):
                r = 0
            iq.append((q, r))
        b = st.wblk(p.b)
        if all(isinstance(r, int) and r == 0 for q, r in iq):
            if isinstance(byte, int) and byte == 0:
                v = zero_of(s.w, s.kind)
            else:
                v = dom.concat([byte] * s.w, 1) if s.w > 1 else byte
                v = self.conv_kind(v, 'i', s.kind, s.w)
            b.segs[si] = s.with_chain(FillC(s.chain, iq[0][0], iq[1][0], v))
        else:
            b.segs[si] = Seg(s.start, s.size, 1, 'i', FillC(PunC(s.chain, s.w, 1), rel, n, byte))

    def new_block(self, st, size, origin, default, name=''):
        b = Blk(new_bid(), size, origin, default, name)
        st.mem[b.id] = b
        return b

    def heap_alloc(self, st, n, name='heap'):
        """fresh zeroed block of n bytes"""
        if isinstance(n, int) and n <= 64:
            b = self.new_block(st, n, 'heap', 'zero', name)
        else:
            b = self.new_block(st, n, 'heap', 'zero', name)
            b.segs.append(Seg(0, n, None, 'i', ZeroC()))
        return Ptr(b.id, 0)

    def free(self, st, p, ins, what='delete'):
        if isinstance(p, Ptr) and p.b == 0:
            return
        p = self.resolve_ptr(st, p, ins, what)
        b = self.live_blk(st, p, ins, what)
        if not (isinstance(p.off, int) and p.off == 0) or b.origin not in ('heap', 'arg'):
            self.ctx.oblige(st, False, what + ': pointer came from the allocator', 'memory', self.where(ins))
            raise PathEnd()
        b = st.wblk(p.b)
        b.alive = False

    # ------------------------------------------------------------ functions
    def call_function(self, st, name, args, ins=None):
        """-> list of (state, ('ret', v) | ('exc', typename, ptr))"""
        name = self.mod.aliases.get(name, name)
        c = self.ctx.contracts.get(name)
        if c is not None:
            r = c(self, st, args, ins)
            if r is not None:
                self.ctx.used_contracts.add(name)
                return r
        e = self.ext.get(name)
        if e is not None:
            return e(self, st, args, ins)
        for rx, fn in self.ext_pat:
            if rx.match(name):
                return fn(self, st, args, ins, name)
        f = self.mod.funcs.get(name)
        if f is None:
            raise Unsupported('call to external function ' + name)
        if len(self.frames) > 24:
            raise Unsupported('call depth')
        self.ctx.inlined.add(name)
        return self.exec_function(st, f, args)

    def exec_function(self, st, f, args):
        fr = Frame(f, self.mod, len(self.frames))
        saved = st.regs
        saved_exc = st.exc
        st.regs = {}
        for (t, nm), a in zip(f.params, args):
            st.regs[nm] = a
        fr.allocas = set()
        self.frames.append(fr)
        try:
            exits, backs, outs = self.run_region(fr, [(f.entry, None, st)], None, None)
        finally:
            self.frames.pop()
        res = []
        for s, o in outs:
            s.regs = dict(saved)
            for k in list(s.mem):
                b = s.mem[k]
                if b.origin == ('stack', fr.depth, id(fr)):
                    nb = b.copy()
                    nb.alive = False
                    s.mem[k] = nb
            if o[0] == 'ret':
                s.exc = saved_exc
            res.append((s, o))
        if len(res) > 1:
            res = self.merge_outcomes(res)
        return res

    def run_region(self, fr, start, region, header):
        work = []
        seq = 0
        exits, backs, outs = [], [], []
        for b, p, s in start:
            heapq.heappush(work, (fr.idx[b], seq, b, p, s, True))
            seq += 1
        while work:
            ix, _, b, prev, st, first = heapq.heappop(work)
            if self.ctx.deadline and time.time() > self.ctx.deadline:
                raise Unsupported('time budget of the function exhausted')
            if region is not None and b not in region:
                exits.append((b, prev, st))
                continue
            if header == b and not first:
                backs.append((b, prev, st))
                continue
            # join merging
            if self.merge_joins and work and work[0][0] == ix and not (b in fr.loops and b != header and False):
                group = [(prev, st)]
                rest = []
                while work and work[0][0] == ix:
                    x = heapq.heappop(work)
                    group.append((x[3], x[4]))
                merged = self.merge_states([g[1] for g in group], fr, b)
                for s in merged[1:]:
                    heapq.heappush(work, (ix, seq, b, None, s, first))
                    seq += 1
                    # avoid re-merging endlessly: process each separately
                st = merged[0]
                if len(merged) > 1:
                    # run the others without merging again
                    pend = []
                    while work and work[0][0] == ix:
                        pend.append(heapq.heappop(work)[4])
                    todo = [st] + pend
                else:
                    todo = [st]
            else:
                todo = [st]
            for st in todo:
                self.npaths += 1
                if self.npaths > self.ctx.max_paths * 20:
                    raise Unsupported('path limit')
                if b in fr.loops and b != header:
                    try:
                        ex, ou = self.handle_loop(fr, b, prev, st)
                    except PathEnd:
                        continue
                    outs.extend(ou)
                    for (tb, tp, ts) in ex:
                        heapq.heappush(work, (fr.idx[tb], seq, tb, tp, ts, False))
                        seq += 1
                    continue
                for (tb, ts) in self.exec_block(fr, b, st, outs):
                    heapq.heappush(work, (fr.idx[tb], seq, tb, b, ts, False))
                    seq += 1
        return exits, backs, outs

    # ------------------------------------------------------------ merging
    def merge_states(self, sts, fr, blk):
        """greedy pairwise merge of states at the same program point"""
        out = []
        for s in sts:
            done = False
            for i, o in enumerate(out):
                m = self.try_merge(o, s, None)
                if m is not None:
                    out[i] = m[0]
                    done = True
                    break
            if not done:
                out.append(s)
        return out

    def merge_outcomes(self, res):
        out = []
        for s, o in res:
            done = False
            for i, (s2, o2) in enumerate(out):
                if o[0] != o2[0]:
                    continue
                if o[0] == 'exc':
                    if o[1] != o2[1]:
                        continue
                    m = self.try_merge(s2, s, (0, 0))
                    if m is not None:
                        out[i] = (m[0], o2)
                        done = True
                        break
                else:
                    m = self.try_merge(s2, s, (o2[1], o[1]))
                    if m is not None:
                        out[i] = (m[0], ('ret', m[1]))
                        done = True
                        break
            if not done:
                out.append((s, o))
        return out

    def try_merge(self, a, b, vals):
        """merge two states; vals: optional pair of return values to merge as well"""
        # common prefix of path conditions
        n = 0
        la, lb = len(a.pc), len(b.pc)
        while n < la and n < lb and a.pc[n].get_id() == b.pc[n].get_id():
            n += 1
        if a.exc is not None and b.exc is not None and a.exc is not b.exc and a.exc[:2] != b.exc[:2]:
            return None          # different exceptions in flight
        if self.distinct(a, b):
            return None
        ia, ib = set(p.get_id() for p in a.pc[n:]), set(p.get_id() for p in b.pc[n:])
        ca = And(*[p for p in a.pc[n:] if p.get_id() not in ib and p.get_id() not in VALID])
        cb = And(*[p for p in b.pc[n:] if p.get_id() not in ia and p.get_id() not in VALID])
        if isinstance(ca, bool) or isinstance(cb, bool):
            return None
        dom = self.dom
        try:
            rv = None
            if vals is not None:
                x, y = vals
                if x is None and y is None:
                    rv = None
                else:
                    rv = self.merge_val(ca, x, y)
            newmem = dict(a.mem)
            for k, bb in b.mem.items():
                ab = a.mem.get(k)
                if ab is None:
                    # global read lazily, or block allocated on one side only
                    newmem[k] = bb
                    continue
                if ab is bb:
                    continue
                newmem[k] = self.merge_blk(ca, ab, bb, a, b)
            if self.mem_cost(a, b) > 12:
                return None
        except MergeFail:
            return None
        m = State(self.ctx)
        m.pc = a.pc[:n]
        m.pcset = set(p.get_id() for p in m.pc)
        m.env = {}
        m.exc = a.exc if a.exc == b.exc else (a.exc or b.exc)
        m.trace = a.trace
        # rebuild env from scratch
        pcs = m.pc
        m.pc = []
        m.pcset = set()
        for p in pcs:
            m.push(p)
        # facts
        fa = {id(f): f for f in a.facts}
        fb = {id(f): f for f in b.facts}
        m.facts = [f if id(f) in fb or f.valid else f.guarded(ca) for f in a.facts] + [f if f.valid else f.guarded(cb) for f in b.facts if id(f) not in fa]
        # condition: factor literals common to both sides
        sa = {p.get_id(): p for p in a.pc[n:]}
        sb = {p.get_id(): p for p in b.pc[n:]}
        common = [p for i, p in sa.items() if i in sb or i in VALID] + [p for i, p in sb.items() if i not in sa and i in VALID]
        sa, sb = {i: p for i, p in sa.items() if i not in VALID}, {i: p for i, p in sb.items() if i not in VALID}
        for p in common:
            m.assume(p)
        ra = And(*[p for i, p in sa.items() if i not in sb])
        rb = And(*[p for i, p in sb.items() if i not in sa])
        if not (ra is True or rb is True or (not isinstance(ra, bool) and not isinstance(rb, bool) and Not(ra).get_id() == rb.get_id() if not isinstance(Not(ra), bool) and not isinstance(rb, bool) else False)):
            m.assume(Or(ra, rb))
        m.mem = newmem
        m.ghost = dict(a.ghost)
        for k, v in b.ghost.items():
            if k in m.ghost and m.ghost[k] is not v:
                if k[0] != 'nul':
                    return None
                v = tuple(m.ghost[k]) + tuple(x for x in v if not any(x is y for y in m.ghost[k]))
            m.ghost[k] = v
        regs = {}
        for k, v in a.regs.items():
            if k in b.regs:
                w = b.regs[k]
                if v is w:
                    regs[k] = v
                else:
                    try:
                        regs[k] = self.merge_val(ca, v, w)
                    except MergeFail:
                        regs[k] = UNMERGED
        # a register that is live and could not be merged must not be lost
        if any(v is UNMERGED for v in regs.values()):
            return None
        m.regs = regs
        return (m, rv)

    def merge_val(self, c, x, y):
        if x is y:
            return x
        if isinstance(x, (int, bool)) and isinstance(y, (int, bool)) and type(x) == type(y) and x == y:
            return x
        return ite_val(self.dom, c, x, y)

    def distinct(self, a, b):
        """quick test for states that cannot be merged: an object is alive in one only, or a pointer leads to different objects"""
        bm = b.mem
        for k, x in a.mem.items():
            y = bm.get(k)
            if y is None or y is x:
                continue
            if x.alive != y.alive or len(x.segs) != len(y.segs):
                return True
            for o, p in x.cells.items():
                q = y.cells.get(o)
                if q is None or q is p:
                    continue
                if p[1] == 'p' and q[1] == 'p' and isinstance(p[2], Ptr) and isinstance(q[2], Ptr) and p[2].b != q[2].b:
                    return True
        return False

    def mem_cost(self, a, b):
        n = 0
        for k, bb in b.mem.items():
            ab = a.mem.get(k)
            if ab is not None and ab is not bb:
                for o in set(ab.cells) | set(bb.cells):
                    if ab.cells.get(o) is not bb.cells.get(o):
                        n += 1
        return n

    def merge_blk(self, c, x, y, a, b):
        if x.alive != y.alive:
            raise MergeFail('alive')
        if x.size is not y.size and not (isinstance(x.size, int) and x.size == y.size):
            raise MergeFail('size')
        m = x.copy()
        for o in set(x.cells) | set(y.cells):
            p, q = x.cells.get(o), y.cells.get(o)
            if p is q:
                continue
            if p is None or q is None:
                e = p or q
                if (x if p is None else y).default != 'zero':
                    # uninitialised on one side
                    m.cells[o] = e
                    if (x if p is None else y).default == 'undef' and not [1 for oo, e2 in (x if p is None else y).cells.items() if oo < o + e[0] and oo + e2[0] > o]:
                        # reading it on the other side would be a fresh value; keep it conservative
                        raise MergeFail('undef')
                    raise MergeFail('undef')
                z = (e[0], e[1], NULL if e[1] == 'p' else zero_of(e[0], e[1]))
                if p is None:
                    p = z
                else:
                    q = z
            if p[0] != q[0] or p[1] != q[1]:
                raise MergeFail('shape')
            w = 8 * p[0]
            m.cells[o] = (p[0], p[1], ite_val(self.dom, c, p[2], q[2], w))
        if len(x.segs) != len(y.segs):
            raise MergeFail('segs')
        for i, (s, t) in enumerate(zip(x.segs, y.segs)):
            if s is t:
                continue
            if s.chain is t.chain and s.w == t.w:
                continue
            w, kind = s.w, s.kind
            sc, tc = s.chain, t.chain
            if s.w != t.w or s.kind != t.kind:
                if s.w is None and isinstance(sc, ZeroC):
                    w, kind = t.w, t.kind
                elif t.w is None and isinstance(tc, ZeroC):
                    pass
                else:
                    raise MergeFail('seg width')
            m.segs[i] = Seg(s.start, s.size, w, kind, IteC(c, sc, tc))
        return m

    # ------------------------------------------------------------ blocks
    def edge(self, fr, st, b, to):
        blocks = fr.blocks[to]
        upd = {}
        for ins in blocks:
            if ins.op != 'phi':
                break
            for v, pb in ins.a[1]:
                if pb == b:
                    upd[ins.res] = self.val(st, v) if v[0] != 'loc' or v[2] in st.regs else UNDEF
                    break
        live = fr.live[to]
        regs = {k: v for k, v in st.regs.items() if k in live}
        regs.update(upd)
        st.regs = regs
        return st

    def exec_block(self, fr, b, st, outs):
        """executes one basic block; returns successor (block, state) list; appends function outcomes to outs"""
        cur = [st]
        ins_list = fr.blocks[b]
        for ins in ins_list[:-1]:
            if ins.op == 'phi':
                continue
            nxt = []
            for s in cur:
                try:
                    nxt.extend(self.step(fr, s, ins, outs))
                except PathEnd:
                    pass
            cur = nxt
            if not cur:
                return []
            if len(cur) > 1:
                cur = self.merge_states(cur, fr, b) if len(cur) > 8 else cur
        t = ins_list[-1]
        res = []
        for s in cur:
            try:
                res.extend(self.terminator(fr, s, t, b, outs))
            except PathEnd:
                pass
        return res

    def branch(self, st, c):
        """-> list of (bool, state)"""
        d = st.decide(c)
        if d is not None:
            return [(d, st)]
        t = self.ctx.feasible(st, c)
        f = self.ctx.feasible(st, Not(c))
        out = []
        if t and f:
            s2 = st.fork()
            if st.assume(c):
                out.append((True, st))
            if s2.assume(Not(c)):
                out.append((False, s2))
        elif t:
            if st.assume(c):
                out.append((True, st))
        elif f:
            if st.assume(Not(c)):
                out.append((False, st))
        return out

    def terminator(self, fr, st, t, b, outs):
        op = t.op
        if op == 'br':
            if t.a[0] is None:
                return [(t.a[1], self.edge(fr, st, b, t.a[1]))]
            c = self.ival(st, t.a[0], 1)
            res = []
            for d, s in self.branch(st, c):
                to = t.a[1] if d else t.a[2]
                res.append((to, self.edge(fr, s, b, to)))
            return res
        if op == 'ret':
            outs.append((st, ('ret', self.val(st, t.a[1]) if t.a[0] else None)))
            return []
        if op == 'switch':
            v = self.ival(st, t.a[1], self.mod.resolve(t.a[0])[1])
            res = []
            cur = st
            for cv, lab in t.a[3]:
                nxt = None
                for d, s in self.branch(cur, self.dom.eq(v, cv)):
                    if d:
                        res.append((lab, self.edge(fr, s, b, lab)))
                    else:
                        nxt = s
                cur = nxt
                if cur is None:
                    break
            if cur is not None:
                res.append((t.a[2], self.edge(fr, cur, b, t.a[2])))
            return res
        if op == 'invoke':
            res = []
            for s, o in self.do_call(fr, st, t):
                if o[0] == 'ret':
                    if t.res is not None:
                        s.regs[t.res] = o[1]
                    res.append((t.a[3], self.edge(fr, s, b, t.a[3])))
                else:
                    s.exc = o
                    res.append((t.a[4], self.edge(fr, s, b, t.a[4])))
            return res
        if op == 'unreachable':
            self.ctx.oblige(st, False, 'unreachable code is not reached', 'control', self.where(t))
            return []
        if op == 'resume':
            outs.append((st, st.exc))
            return []
        raise Unsupported('terminator ' + op)

    def do_call(self, fr, st, ins):
        rt, callee, args, norm, unw = ins.a
        av = []
        for a in args:
            if a is None:
                av.append(None)
            else:
                v = self.val(st, a[1])
                if isinstance(v, Undef) and a[0][0] == 'i':
                    v = self.fresh_scalar(a[0])
                av.append(v)
        if callee[0] == 'glb':
            name = callee[1]
        else:
            fv = self.val(st, callee)
            if not isinstance(fv, FnPtr):
                raise Unsupported('indirect call through %r at %s' % (fv, self.where(ins)))
            name = fv.name
        return self.call_function(st, name, av, ins)

    def step(self, fr, st, ins, outs):
        op = ins.op
        dom = self.dom
        if op in ('call',):
            res = []
            for s, o in self.do_call(fr, st, ins):
                if o[0] == 'ret':
                    if ins.res is not None:
                        s.regs[ins.res] = o[1]
                    res.append(s)
                else:
                    outs.append((s, o))
            return res
        if op == 'load':
            st.regs[ins.res] = self.load(st, self.val(st, ins.a[1]), ins.a[0], ins)
            return [st]
        if op == 'store':
            self.store(st, self.val(st, ins.a[2]), ins.a[0], self.val(st, ins.a[1]), ins)
            return [st]
        if op == 'getelementptr':
            st.regs[ins.res] = self.gep(st, ins)
            return [st]
        if op == 'icmp':
            pred, t, a, b = ins.a
            rt = self.mod.resolve(t)
            x, y = self.val(st, a), self.val(st, b)
            st.regs[ins.res] = self.icmp(st, pred, rt, x, y, ins)
            return [st]
        if op in ir.BINOPS:
            t, a, b, flags = ins.a
            rt = self.mod.resolve(t)
            if rt[0] in ('f64', 'f32'):
                x, y = self.fval(st, a, rt), self.fval(st, b, rt)
                w = x.w
                if op == 'frem':
                    raise Unsupported('frem')
                st.regs[ins.res] = self.fop(op, x, y)
                return [st]
            w = rt[1]
            x, y = self.ival(st, a, w), self.ival(st, b, w)
            st.regs[ins.res] = self.binop(st, op, w, x, y, flags, ins)
            return [st]
        if op in ir.CASTS:
            t, a, t2 = ins.a
            st.regs[ins.res] = self.cast(st, op, self.mod.resolve(t), self.val(st, a), self.mod.resolve(t2), ins)
            return [st]
        if op == 'select':
            c, t, a, b = ins.a
            cv = self.ival(st, c, 1)
            x, y = self.val(st, a), self.val(st, b)
            d = st.decide(cv)
            if d is not None:
                st.regs[ins.res] = x if d else y
                return [st]
            try:
                rt = self.mod.resolve(t)
                st.regs[ins.res] = ite_val(dom, cv, x, y, rt[1] if rt[0] == 'i' else None)
                return [st]
            except MergeFail:
                res = []
                for dd, s in self.branch(st, cv):
                    s.regs[ins.res] = x if dd else y
                    res.append(s)
                return res
        if op == 'alloca':
            t, n = ins.a
            if n is not None and self.val(st, n) != 1:
                raise Unsupported('dynamic alloca')
            b = self.new_block(st, self.mod.size(t), ('stack', fr.depth, id(fr)), 'undef', ins.res)
            self.ctx.new_typed_segs(b, 0, t, lambda w, kind: BaseC(dom, w, kind, 'undef'))
            st.regs[ins.res] = Ptr(b.id, 0)
            return [st]
        if op == 'fcmp':
            pred, t, a, b = ins.a
            rt = self.mod.resolve(t)
            st.regs[ins.res] = self.fcmp(pred, self.fval(st, a, rt), self.fval(st, b, rt))
            return [st]
        if op == 'fneg':
            rt = self.mod.resolve(ins.a[0])
            x = self.fval(st, ins.a[1], rt)
            if x.has_bits():
                st.regs[ins.res] = FloatVal(x.w, bits=keep(z3.simplify(x.bits ^ z3.BitVecVal(1 << (x.w - 1), x.w))))
            else:
                st.regs[ins.res] = FloatVal(x.w, fp=keep(z3.fpNeg(x.fp)))
            return [st]
        if op == 'landingpad':
            return self.landingpad(st, ins)
        if op == 'extractvalue':
            v = self.val(st, ins.a[0])
            for i in ins.a[1]:
                if isinstance(v, Undef):
                    break
                v = v[i]
            st.regs[ins.res] = v
            return [st]
        if op == 'insertvalue':
            agg = self.val(st, ins.a[0])
            v = self.val(st, ins.a[1])
            i = ins.a[2][0]
            rt = self.mod.resolve(ins.a[0][1])
            l = list(agg) if isinstance(agg, tuple) else [UNDEF] * len(rt[1])
            l[i] = v
            st.regs[ins.res] = tuple(l)
            return [st]
        if op == 'freeze':
            st.regs[ins.res] = self.val(st, ins.a)
            return [st]
        raise Unsupported('instruction ' + ins.text)

    def landingpad(self, st, ins):
        # value: (exception pointer token, selector)
        exc = st.exc
        sel = 0
        for cl in ins.a:
            if cl[0] == 'catch':
                o = cl[1]
                if o[0] == 'null':
                    sel = -1
                    break
                tn = o[1]
                if self.exc_matches(exc[1], tn):
                    sel = self.typeid(tn)
                    break
        st.regs[ins.res] = (exc[2], sel)
        return [st]

    def typeid(self, tn):
        return 1000 + abs(hash(tn)) % 100000 if False else self.ctx.glob_id(tn) + 1000

    def exc_matches(self, thrown, catch):
        return thrown == catch

    def icmp(self, st, pred, rt, x, y, ins):
        dom = self.dom
        if rt[0] == 'ptr':
            return self.ptrcmp(st, pred, x, y, ins)
        w = rt[1]
        if isinstance(x, Undef):
            x = self.fresh_scalar(rt)
        if isinstance(y, Undef):
            y = self.fresh_scalar(rt)
        if w == 1:
            r = Iff(x, y)
            return r if pred == 'eq' else Not(r)
        if isinstance(x, PtrInt) or isinstance(y, PtrInt):
            raise Unsupported('pointer integer comparison')
        return dom.cmp(pred, w, x, y, st)

    def ptrcmp(self, st, pred, x, y, ins):
        dom = self.dom
        if isinstance(x, Undef) or isinstance(y, Undef):
            return keep(z3.Bool(fresh_name('undef')))
        if isinstance(x, FnPtr) or isinstance(y, FnPtr):
            same = isinstance(x, FnPtr) and isinstance(y, FnPtr) and x.name == y.name
            return same if pred == 'eq' else not same
        if isinstance(x, Ptr) and isinstance(y, Ptr):
            if x.b != y.b:
                for p, q in ((x, y), (y, x)):
                    if p.b in st.mem and st.mem[p.b].origin == 'sbbuf' and q.b != 0:
                        raise Unsupported('address of a buffer known only by its contract')
            if x.b == y.b:
                if pred in ('eq', 'ne'):
                    r = dom.eq(x.off, y.off)
                    return r if pred == 'eq' else Not(r)
                return dom.cmp('s' + pred[1:], 64, x.off, y.off, st)
            if pred == 'eq':
                return False
            if pred == 'ne':
                return True
            raise Unsupported('ordering of unrelated pointers')
        if dom is BV:
            raise Unsupported('pointer comparison')
        r = dom.eq(addr_term(x), addr_term(y))
        if pred == 'eq':
            return r
        if pred == 'ne':
            return Not(r)
        raise Unsupported('pointer ordering')

    def gep(self, st, ins):
        t, base, idx = ins.a
        p = self.val(st, base)
        dom = self.dom
        off = 0
        first = True
        for ix in idx:
            wt = self.mod.resolve(ix[1]) if ix[0] in ('loc', 'const') else ('i', 64)
            i = self.ival(st, ix, wt[1])
            if not isinstance(i, int) and dom is BV and wt[1] < 64:
                i = dom.sext(wt[1], 64, i, st)
            if first:
                off = off_add(dom, off, off_mul(dom, i, self.mod.size(t)))
                first = False
            else:
                rt = self.mod.resolve(t)
                if rt[0] == 'st':
                    off = off_add(dom, off, self.mod.layout(rt)[0][i])
                    t = rt[1][i]
                else:
                    off = off_add(dom, off, off_mul(dom, i, self.mod.size(rt[2])))
                    t = rt[2]
        if isinstance(p, Ptr):
            return Ptr(p.b, off_add(dom, p.off, off))
        if isinstance(p, AddrPtr):
            return AddrPtr(iadd(p.t, off))
        if isinstance(p, Undef):
            return p
        raise Unsupported('gep on %r' % (p,))

    def binop(self, st, op, w, x, y, flags, ins):
        dom = self.dom
        if w == 1:
            if op == 'and':
                return And(x, y)
            if op == 'or':
                return Or(x, y)
            if op == 'xor':
                return Not(Iff(x, y))
            raise Unsupported('i1 ' + op)
        if isinstance(x, PtrInt) or isinstance(y, PtrInt):
            if op == 'sub' and isinstance(x, PtrInt) and isinstance(y, PtrInt):
                a, b = x.p, y.p
                if isinstance(a, Ptr) and isinstance(b, Ptr) and a.b == b.b:
                    return off_sub(dom, a.off, b.off)
            raise Unsupported('pointer arithmetic')
        if op in ('sdiv', 'srem', 'udiv', 'urem'):
            nz = Not(dom.cmp('eq', w, y, 0, st))
            if nz is not True:
                self.ctx.oblige(st, nz, 'divisor is not zero', 'arithmetic', self.where(ins))
            if op in ('sdiv', 'srem'):
                g = Not(And(dom.cmp('eq', w, x, smin(w), st), dom.cmp('eq', w, y, -1, st)))
                if g is not True:
                    self.ctx.oblige(st, g, 'quotient is representable', 'arithmetic', self.where(ins))
        if op in ('shl', 'lshr', 'ashr') and not isinstance(y, int):
            self.ctx.oblige(st, And(dom.le(0, y), dom.lt(y, w)), 'shift amount is below the width', 'arithmetic', self.where(ins))
        if dom is INT and op == 'mul' and flags and ('nuw' in flags):
            pass
        m = {'add': dom.add, 'sub': dom.sub, 'mul': dom.mul, 'sdiv': dom.sdiv, 'udiv': dom.udiv, 'srem': dom.srem, 'urem': dom.urem,
             'and': dom.and_, 'or': dom.or_, 'xor': dom.xor, 'shl': dom.shl, 'lshr': dom.lshr, 'ashr': dom.ashr}[op]
        try:
            return m(w, x, y, st)
        except NotImplementedError:
            raise Unsupported('bit operation in integer mode: ' + ins.text)

    # ---- floating point
    def fval(self, st, o, rt):
        v = self.val(st, o)
        if isinstance(v, Undef):
            return self.fresh_scalar(rt)
        return v

    def fop(self, op, x, y):
        rm = z3.RNE()
        a, b = x.fp, y.fp
        r = {'fadd': z3.fpAdd, 'fsub': z3.fpSub, 'fmul': z3.fpMul, 'fdiv': z3.fpDiv}[op](rm, a, b)
        return FloatVal(x.w, fp=keep(z3.simplify(r)))

    def fcmp(self, pred, x, y):
        a, b = x.fp, y.fp
        un = z3.Or(z3.fpIsNaN(a), z3.fpIsNaN(b))
        base = {'eq': z3.fpEQ, 'gt': z3.fpGT, 'ge': z3.fpGEQ, 'lt': z3.fpLT, 'le': z3.fpLEQ}
        if pred == 'une':
            r = z3.Not(z3.fpEQ(a, b))
        elif pred == 'one':
            r = z3.And(z3.Not(un), z3.Not(z3.fpEQ(a, b)))
        elif pred == 'uno':
            r = un
        elif pred == 'ord':
            r = z3.Not(un)
        elif pred[0] == 'o':
            r = base[pred[1:]](a, b)
        else:
            r = z3.Or(un, base[pred[1:]](a, b))
        r = z3.simplify(r)
        if z3.is_true(r):
            return True
        if z3.is_false(r):
            return False
        return keep(r)

    def sitofp(self, v, w, fw, signed, st):
        s = z3.Float64() if fw == 64 else z3.Float32()
        if isinstance(v, int):
            if not signed:
                v &= (1 << w) - 1
            return FloatVal(fw, fp=keep(z3.simplify(z3.fpRealToFP(z3.RNE(), z3.RealVal(v), s))))
        if self.dom is BV:
            return FloatVal(fw, fp=keep(z3.fpSignedToFP(z3.RNE(), v, s) if signed else z3.fpUnsignedToFP(z3.RNE(), v, s)))
        if not signed:
            v = INT.uns(w, v, st)
        if not isinstance(v, int) and z3.is_app_of(v, z3.Z3_OP_ITE) and z3.is_int_value(v.arg(1)) | z3.is_int_value(v.arg(2)):
            a, b = [self.sitofp(x.as_long() if z3.is_int_value(x) else x, w, fw, True, st) for x in (v.arg(1), v.arg(2))]
            return FloatVal(fw, fp=keep(z3.If(v.arg(0), a.fp, b.fp)))
        f = z3.Function('int_to_fp%d' % fw, z3.IntSort(), s)
        return FloatVal(fw, fp=keep(f(v)))

    def cast(self, st, op, t, v, t2, ins):
        dom = self.dom
        if op in ('sext', 'zext', 'trunc'):
            w, w2 = t[1], t2[1]
            if isinstance(v, Undef):
                v = self.fresh_scalar(t)
            if isinstance(v, PtrInt):
                raise Unsupported('cast of pointer')
            if w == 1:
                r = dom.b2i(v, w2)
                if op == 'sext':
                    r = dom.sub(w2, 0, r, st)
                return r
            return getattr(dom, op)(w, w2, v, st)
        if op in ('sitofp', 'uitofp'):
            if t[1] == 1:
                v = dom.b2i(v, 32)
                return self.sitofp(v, 32, 64 if t2[0] == 'f64' else 32, True, st)
            return self.sitofp(v, t[1], 64 if t2[0] == 'f64' else 32, op == 'sitofp', st)
        if op in ('fptosi', 'fptoui'):
            return self.fptoint(st, v, t2[1], op == 'fptosi', ins)
        if op in ('fpext', 'fptrunc'):
            s = z3.Float64() if t2[0] == 'f64' else z3.Float32()
            return FloatVal(64 if t2[0] == 'f64' else 32, fp=keep(z3.simplify(z3.fpFPToFP(z3.RNE(), v.fp, s))))
        if op == 'ptrtoint':
            return PtrInt(v)
        if op == 'bitcast':
            k = lambda x: 'f' if x[0] in ('f32', 'f64') else 'p' if x[0] == 'ptr' else 'i'
            if isinstance(v, Undef):
                return v
            return self.conv_kind(v, k(t), k(t2), self.mod.size(t2))
        raise Unsupported('cast ' + op)

    def fptoint(self, st, v, w, signed, ins):
        fp = v.fp
        s = fp.sort()
        # in-range obligation: truncation fits
        if signed:
            lo = z3.fpRealToFP(z3.RTZ(), z3.RealVal(-(1 << (w - 1))), s)
            hi = z3.fpRealToFP(z3.RTZ(), z3.RealVal(1 << (w - 1)), s)
            if w < (53 if v.w == 64 else 24):
                lo1 = z3.fpRealToFP(z3.RTZ(), z3.RealVal(-(1 << (w - 1)) - 1), s)
                g = z3.And(z3.fpGT(fp, lo1), z3.fpLT(fp, hi))
            else:
                g = z3.And(z3.fpGEQ(fp, lo), z3.fpLT(fp, hi))
        else:
            hi = z3.fpRealToFP(z3.RTZ(), z3.RealVal(1 << w), s)
            g = z3.And(z3.fpGT(fp, z3.FPVal(-1.0, s)), z3.fpLT(fp, hi))
        g = z3.simplify(g)
        g = True if z3.is_true(g) else False if z3.is_false(g) else keep(g)
        self.ctx.oblige(st, g, 'converted floating value fits the integer type', 'arithmetic', self.where(ins))
        return self.fptoint_value(v, w, signed, st)

    def f2i_order(self, st, fp, r):
        """truncation is monotone: instances for the constants that the path condition compares the same value with"""
        seen, work = set(), [p for p in st.pc if z3.is_expr(p)]
        cs = {}
        n = 0
        while work and n < 20000:
            t = work.pop()
            if t.get_id() in seen:
                continue
            seen.add(t.get_id())
            n += 1
            if z3.is_app(t) and t.decl().kind() in (z3.Z3_OP_FPA_LT, z3.Z3_OP_FPA_LE, z3.Z3_OP_FPA_GT, z3.Z3_OP_FPA_GE, z3.Z3_OP_FPA_EQ):
                a, b = t.children()
                for x, y in ((a, b), (b, a)):
                    if x.eq(fp) and z3.is_fp_value(y) and not y.isNaN() and not y.isInf():
                        cs[y.get_id()] = y
            elif z3.is_bool(t):
                work.extend(t.children())
        for y in cs.values():
            i = int(Fraction(z3.simplify(z3.fpToReal(y)).as_fraction()))
            if abs(i) >= 1 << 62:
                continue
            st.assume(keep(z3.And(z3.Implies(z3.fpLEQ(fp, y), r <= i), z3.Implies(z3.fpGEQ(fp, y), r >= i))))

    def fptoint_value(self, v, w, signed, st=None):
        fp = v.fp
        s = fp.sort()
        if self.dom is BV:
            return self.dom.S((z3.fpToSBV if signed else z3.fpToUBV)(z3.RTZ(), fp, z3.BitVecSort(w)))
        r = z3.simplify(z3.fpToSBV(z3.RTZ(), fp, z3.BitVecSort(w)) if signed else z3.fpToUBV(z3.RTZ(), fp, z3.BitVecSort(w)))
        if z3.is_bv_value(r):
            return r.as_signed_long()
        n = 'fp_to_int%d_%s' % (w, 's' if signed else 'u')
        RANGE[n] = (smin(w), smax(w))
        f = z3.Function(n, s, z3.IntSort())
        r = keep(f(fp))
        if st is not None:
            self.f2i_order(st, fp, r)
        return r

    # ------------------------------------------------------------ loops
    def handle_loop(self, fr, header, prev, st):
        from .loops import LoopRunner
        return LoopRunner(self, fr, header, prev, st).run()


UNMERGED = object()


class OpaqueC(Chain):
    """the inline storage of a builder whose buffer is described separately (it may or may not be this storage): not accessed directly"""

    def read(self, k, st, w, kind):
        raise Unsupported('direct access to the inline buffer of a builder known only by its contract')


class LazyC(Chain):
    """contents decided at the first access"""

    def read(self, k, st, w, kind):
        raise Unsupported('untyped contents')
