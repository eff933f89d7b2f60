"""Loops: unrolling when the trip count is provably small, otherwise inductive invariants that are
guessed automatically (strides, bounds, iteration history, array effect of n iterations, hints of the
contract) and then proved: every guess must hold on entry and be preserved by an arbitrary iteration."""
import z3
from .terms import *
from .mem import *
from .mem import Unsupported
from .prover import Fact, symbols, subst, sym_serial, auto_trigs, unz
from . import terms as T


def serial_ok(t, limit, allowed=()):
    """only symbols created before `limit` (or allowed names)"""
    if isinstance(t, (int, bool)):
        return True
    if isinstance(t, FloatVal):
        return serial_ok(t._bits if t._bits is not None else t._fp, limit, allowed)
    if isinstance(t, Ptr):
        return serial_ok(t.off, limit, allowed)
    if isinstance(t, AddrPtr):
        return serial_ok(t.t, limit, allowed)
    if not isinstance(t, z3.ExprRef):
        return False
    for x in symbols(t).values():
        n = x.decl().name()
        if n in allowed:
            continue
        if sym_serial(n) > limit:
            return False
    return True


def subst_val(v, m):
    if isinstance(v, FloatVal):
        if v.has_bits():
            return FloatVal(v.w, bits=subst(v.bits, m))
        return FloatVal(v.w, fp=subst(v.fp, m))
    if isinstance(v, Ptr):
        return Ptr(v.b, subst(v.off, m))
    if isinstance(v, AddrPtr):
        return AddrPtr(subst(v.t, m))
    return subst(v, m)


def rewrite_apps(v, decl_name, fn):
    """replace applications of a content function by fn(index)"""
    def term(t):
        if isinstance(t, (int, bool)):
            return t
        for _ in range(6):
            apps = [x for x in symbols(t).values() if x.decl().name() == decl_name]
            if not apps:
                return t
            # innermost first
            apps.sort(key=lambda x: len(symbols(x)))
            x = apps[0]
            r = fn(unz(x.arg(0)))
            r = r.bits if isinstance(r, FloatVal) else zi(r)
            t = subst(keep(z3.substitute(t, (x, r))), {})
            if isinstance(t, (int, bool)):
                return t
        return t
    if isinstance(v, FloatVal):
        if v.has_bits():
            return FloatVal(v.w, bits=term(v.bits))
        return FloatVal(v.w, fp=term(v.fp))
    if isinstance(v, Ptr):
        return Ptr(v.b, term(v.off))
    if isinstance(v, AddrPtr):
        return AddrPtr(term(v.t))
    return term(v)


def unwrap(t):
    """guess the value without wrap-around of an explicit wrap"""
    while not isinstance(t, int) and z3.is_app_of(t, z3.Z3_OP_ITE):
        a, b = unz(t.arg(1)), unz(t.arg(2))
        if isinstance(a, bool) or not z3.is_int(t):
            return t
        d = isub(a, b)
        if isinstance(d, int) and abs(d) in (1 << 8, 1 << 16, 1 << 32, 1 << 64):
            t = b
        else:
            return t
    return t


def val_eq(dom, a, b):
    if a is b:
        return True
    if isinstance(a, (bool, z3.BoolRef)) and isinstance(b, (bool, z3.BoolRef)):
        return Iff(a, b)
    if isinstance(a, FloatVal) or isinstance(b, FloatVal):
        if not (isinstance(a, FloatVal) and isinstance(b, FloatVal)):
            return False
        if a.has_bits() and b.has_bits():
            x, y = a.bits, b.bits
            return True if x.get_id() == y.get_id() else simp_bool(x == y)
        x, y = a.fp, b.fp
        return True if x.get_id() == y.get_id() else simp_bool(x == y)
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        if a.b != b.b:
            return False
        return dom.eq(a.off, b.off)
    if isinstance(a, (Ptr, AddrPtr)) and isinstance(b, (Ptr, AddrPtr)):
        return dom.eq(addr_term(a), addr_term(b))
    if isinstance(a, (Ptr, AddrPtr)) or isinstance(b, (Ptr, AddrPtr)):
        # address integers against pointers
        x = addr_term(a) if isinstance(a, (Ptr, AddrPtr)) else a
        y = addr_term(b) if isinstance(b, (Ptr, AddrPtr)) else b
        return dom.eq(x, y)
    if isinstance(a, FnPtr) or isinstance(b, FnPtr):
        return isinstance(a, FnPtr) and isinstance(b, FnPtr) and a.name == b.name
    if isinstance(a, tuple) and isinstance(b, tuple):
        return And(*[val_eq(dom, x, y) for x, y in zip(a, b)])
    if isinstance(a, Undef) or isinstance(b, Undef):
        return isinstance(a, Undef) and isinstance(b, Undef)
    return dom.eq(a, b)


def simp_bool(b):
    b = z3.simplify(b)
    if z3.is_true(b):
        return True
    if z3.is_false(b):
        return False
    return keep(b)


class LoopRunner:
    def __init__(self, eng, fr, header, prev, st):
        self.eng, self.fr, self.header, self.prev, self.st0 = eng, fr, header, prev, st
        self.ctx = eng.ctx
        self.dom = eng.dom
        self.body = fr.loops[header]
        self.phis = [i for i in fr.blocks[header] if i.op == 'phi']
        self.name = '%s/%s' % (fr.f.name, header)

    def one(self, sts):
        return self.eng.run_region(self.fr, [(self.header, self.prev, s) for s in sts], self.body, self.header)

    def run(self):
        if self.dom is BV or self.eng.unroll_all:
            return self.unroll(self.eng.unroll_limit)
        n0 = len(self.ctx.obls)
        self.nohist = False
        try:
            r = self.invariant()
        except _Unstable:
            # the facts remembered of earlier iterations do not reach a fixed point: try without them
            del self.ctx.obls[n0:]
            self.nohist = True
            r = self.invariant()
        except Unsupported as e:
            # a loop over the bytes of a variable: take its iterations one by one
            if 'symbolic offset' not in str(e):
                raise
            del self.ctx.obls[n0:]
            return self.unroll(32)
        if r is None:
            return self.unroll(self.eng.unroll_limit)
        return r

    def unroll(self, limit):
        frontier = [self.st0]
        exits, outs = [], []
        for i in range(limit):
            e, b, o = self.one(frontier)
            exits += e
            outs += o
            frontier = [s for _, _, s in b]
            frontier = [s for s in frontier if self.ctx.feasible(s)]
            if len(frontier) > 1:
                frontier = self.eng.merge_states(frontier, self.fr, self.header)
            if not frontier:
                return exits, outs
            if len(frontier) + len(exits) > 600:
                raise Unsupported('loop unrolling explodes: ' + self.name)
        raise Unsupported('loop without a provable small bound: ' + self.name)

    # ------------------------------------------------------------ invariants
    def scalar_init(self, key):
        if key[0] == 'r':
            return self.st0.regs[key[1]]
        b = self.st0.blk(key[1])
        c = b.cells.get(key[2])
        if c is None:
            if b.default == 'zero':
                return NULL if key[4] == 'p' else zero_of(key[3], key[4])
            return UNDEF
        return c[2]

    def scalar_get(self, st, key):
        if key[0] == 'r':
            return st.regs[key[1]]
        b = st.blk(key[1])
        c = b.cells.get(key[2])
        if c is None:
            return NULL if key[4] == 'p' else zero_of(key[3], key[4])
        return c[2]

    def scalar_width(self, key):
        if key[0] == 'r':
            for i in self.phis:
                if i.res == key[1]:
                    t = self.eng.mod.resolve(i.a[0])
                    return t[1] if t[0] == 'i' else 64
        return 8 * key[3]

    def havoc(self):
        st = self.st0.fork()
        n = self.n
        self.hv = {}
        for key in self.keys:
            init = self.init[key]
            d = self.stride.get(key)
            if isinstance(init, Ptr):
                off = init.off
                if d is None:
                    if key in self.constant:
                        v = init
                    else:
                        v = Ptr(init.b, self.freshvar(key, 64))
                else:
                    v = Ptr(init.b, iadd(off, imul(d, n)))
            elif key in self.constant:
                v = init
            elif key in self.delay:
                v = self.delayed(key, n)
            elif isinstance(init, (bool, z3.BoolRef)):
                v = keep(z3.Bool(fresh_name('hb')))
            elif isinstance(init, FloatVal):
                v = FloatVal(init.w, bits=keep(z3.BitVec(fresh_name('hf'), init.w)))
            elif isinstance(init, (int, z3.ExprRef)) and not isinstance(init, bool):
                if d is not None:
                    v = iadd(init, imul(d, n))
                else:
                    v = self.freshvar(key, self.scalar_width(key))
            elif isinstance(init, Undef):
                t = None
                for i in self.phis:
                    if key == ('r', i.res):
                        t = i.a[0]
                if t is not None:
                    v = UNDEF
                else:
                    v = self.eng.fresh_scalar(('i', 8 * key[3]) if key[4] == 'i' else ('ptr',))
            elif isinstance(init, tuple):
                v = init
            elif isinstance(init, AddrPtr):
                v = AddrPtr(INT.var(fresh_name('hp'), 0, 1 << 62))
            else:
                raise Unsupported('loop variable %r' % (init,))
            self.hv[key] = v
            if key[0] == 'r':
                st.regs[key[1]] = v
            else:
                b = st.wblk(key[1])
                b.cells[key[2]] = (key[3], key[4], v)
        self.hseg = {}
        for sk, info in self.segs.items():
            b = st.wblk(sk[0])
            s = b.segs[sk[1]]
            if info.get('writes'):
                ch = LoopC(s.chain, info['writes'], n)
            else:
                ch = BaseC(self.dom, info['w'], info['kind'], 'loop')
            b.segs[sk[1]] = Seg(s.start, s.size, info['w'], info['kind'], ch)
            self.hseg[sk] = ch
        for key, v in self.hv.items():
            # typed range of stride variables is part of the invariant
            if self.stride.get(key) is not None and not isinstance(v, (Ptr, int)):
                w = self.scalar_width(key)
                st.assume(ile(smin(w), v))
                st.assume(ile(v, smax(w)))
        for c in self.cands:
            st.assume(c[1](self.hv, n, st))
        if self.hist is not None:
            st.facts.append(self.hist_fact())
            st.assume(Or(ile(n, 0), self.hist_at(isub(n, 1))))
        for h in self.hint_facts:
            f = h(self, self.hv, n, st)
            if f is not None:
                st.facts.extend(f)
        return st

    def delayed(self, key, n):
        """a variable that every iteration computes anew: its value after iteration n - 1"""
        return ite_val(self.dom, ieq(n, 0), self.init[key], subst(self.delay[key], {self.nname: isub(n, 1)}))

    def freshvar(self, key, w):
        v = self.fresh_of.get(key)
        if v is None:
            v = self.dom.fresh('lv', w)
            self.fresh_of[key] = v
        return v

    def hist_at(self, m):
        return subst(self.hist.term, {self.nname: m})

    def hist_fact(self):
        """for every earlier iteration m: its path condition, and what its inner loops and calls established.
        Unknowns chosen inside an iteration are ghost functions of the iteration number."""
        H, nn, n = self.hist, self.nname, self.n
        trigs = []
        seen = set()

        def add(t, bound=()):
            for dn, inv in (auto_trigs(t, n) if not isinstance(t, bool) else []):
                key = (dn, str(inv(_PROBE)))
                if any(bn in key[1] for bn in bound):
                    continue
                if key not in seen:
                    seen.add(key)
                    trigs.append((dn, inv))

        def addf(f, bound):
            add(f[1], bound + (f[0],))
            for g in f[2]:
                addf(g, bound + (f[0],))
        add(H.term)
        for f in H.facts:
            addf(f, ())
        memo = {}

        def mk(f, mp, guard):
            q, bt, nested = f
            v = keep(z3.Int(fresh_name('q')))
            m2 = dict(mp)
            m2[q] = v
            probe = subst(bt, m2)
            tr = auto_trigs(probe, v) if not isinstance(probe, bool) else []

            def body(j):
                m3 = dict(mp)
                m3[q] = j
                return Implies(guard, subst(bt, m3)), [mk(g, m3, guard) for g in nested]
            return Fact(tr, body, 'history')

        def body(m):
            key = m if isinstance(m, int) else ('t', m.get_id())
            r = memo.get(key)
            if r is None:
                guard = And(ile(0, m), ilt(m, n))
                r = (Implies(guard, subst(H.term, {nn: m})), [mk(f, {nn: m}, guard) for f in H.facts] if guard is not False else [])
                memo[key] = r
                if not isinstance(m, int):
                    keep(m)
            return r
        return Fact(trigs, body, 'history of ' + self.name)

    # ------------------------------------------------------------ builders with a stated loop invariant
    def find_builders(self):
        """StringBuilders whose contents at the loop head the contract states as a function of their length"""
        out = []
        hook = self.ctx.loop_builder
        if hook is None:
            return out
        from .world import SymWorld, CUR, mkn
        vt = Ptr(self.ctx.glob_id('_ZTVN13DotnetLibrary13StringBuilderE'), 16)
        for bid, b in list(self.st0.mem.items()):
            c = b.cells.get(0)
            if not b.alive or c is None or not isinstance(c[2], Ptr) or (c[2].b, c[2].off) != (vt.b, vt.off) or 540 not in b.cells:
                continue
            W = SymWorld(self.eng, self.st0.fork())
            W.args = self.ctx.cur_args
            save, CUR[0] = CUR[0], W
            try:
                chf = hook(W, Ptr(bid, 0))
            finally:
                CUR[0] = save
            lenf = None
            if isinstance(chf, tuple):
                chf, lenf = chf
            if chf is not None:
                have = set(id(f) for f in self.st0.facts)
                self.st0.facts.extend(f for f in W.st.facts if id(f) not in have)     # definitions only
                d = b.cells[528][2]
                if chf.__code__.co_argcount == 2:
                    chf = (lambda g: lambda k, L, n: g(k, L))(chf)
                out.append((Ptr(bid, 0), W.closed(chf), {bid, d.b}))
                if lenf is not None:
                    self.blens.append((('c', bid, 540, 4, 'i'), W.closed(lenf)))
        return out

    def touched(self):
        """does the first iteration change any of those builders"""
        ab, self.absb = self.absb, []
        try:
            head, exits, backs, outs = self.iterate()
        except Unsupported:
            return True
        finally:
            self.absb = ab
        return any(bk.mem.get(x) is not head.mem.get(x) for _, _, bk in backs for _, _, bs in ab for x in bs)

    def abs_heads(self, st):
        """the states at the loop head: every builder as its invariant says, for its (unknown) length"""
        from contracts.sb import sbset
        from .world import explore, mkn
        if not self.absb:
            return [st]

        def go(W):
            for b, chf, _ in self.absb:
                L = W.ld(b, 540, 'i32')
                W.assume(L >= 0)
                sbset(W, b, L, lambda k: chf(k, L, mkn(self.n)))
        sts = [W.st for W, _ in explore(self.eng, st, go)]
        return [s for s in sts if len(sts) == 1 or not self.ctx.prove_quick(s, False, 4.0, rounds=4)]

    def abs_check(self, bk, what, n):
        from contracts.sb import sbset
        from .world import explore, SymWorld, CUR, mkn
        from .verify import ViewCheck
        for b, chf, _ in self.absb:
            base = bk.fork()
            base.mem = dict(self.st0.mem)
            P0 = SymWorld(self.eng, bk.fork())
            L = P0.ld(b, 540, 'i32')

            def go(W):
                W.inputs = None
                sbset(W, b, L, lambda k: chf(k, L, mkn(n)))
            for W, _ in explore(self.eng, base, go):
                chk = W.st.fork()
                chk.mem = dict(bk.mem)
                P = SymWorld(self.eng, chk)
                save, CUR[0] = CUR[0], W
                try:
                    ck = ViewCheck(self.eng, self.ctx, P, W, self.name)
                    ck.prefix = 'loop invariant %s: ' % what
                    ck('length is not negative', L >= 0)
                    for v in W.views:
                        v(P, ck)
                except PathEnd:
                    pass
                finally:
                    CUR[0] = save

    def mods(self, head, backs):
        """cells/segments changed by an iteration"""
        new = False
        ab = {x: b.b for b, _, bs in self.absb for x in bs}
        for _, _, bk in backs:
            for bid, hb in list(head.mem.items()):
                bb = bk.mem.get(bid)
                if bb is None or bb is hb:
                    continue
                if bid in ab:
                    key = ('c', bid, 540, 4, 'i')
                    if ab[bid] == bid and key not in self.init and val_eq(self.dom, hb.cells[540][2], bb.cells[540][2]) is not True:
                        self.init[key] = self.scalar_init(key)
                        self.keys.append(key)
                        new = True
                    continue
                if bb.alive != hb.alive:
                    raise Unsupported('loop frees memory it did not allocate: ' + self.name)
                for o in set(bb.cells) | set(hb.cells):
                    x, y = hb.cells.get(o), bb.cells.get(o)
                    if x is y:
                        continue
                    if x is not None and y is not None and x[0] == y[0] and val_eq(self.dom, x[2], y[2]) is True:
                        continue
                    if hb.default == 'undef' and x is None and hb.origin != 'arg':
                        # first initialisation inside the loop: not observable before it is written again
                        pass
                    e = y or x
                    key = ('c', bid, o, e[0], e[1])
                    if key not in self.init:
                        self.init[key] = self.scalar_init(key)
                        self.keys.append(key)
                        new = True
                for i, (s, t) in enumerate(zip(hb.segs, bb.segs)):
                    if s.chain is t.chain:
                        continue
                    if isinstance(s.chain, LazyC_types) and s.w is None and isinstance(t.chain, BaseC):
                        continue
                    if s.w is not None and t.w != s.w and not self.guessed:
                        # seen as bytes while nothing was known about the loop's pointers: look again once their strides are known
                        self.deferred = True
                        continue
                    if (bid, i) not in self.segs:
                        self.segs[(bid, i)] = dict(w=t.w, kind=t.kind, writes=None)
                        new = True
        return new

    def guess(self, head, backs):
        """strides and constants from the effect of one iteration"""
        ch = False
        for key in self.keys:
            if key in self.constant or key in self.nostride or self.stride.get(key) is not None:
                continue
            h = self.hv[key]
            ds = []
            allsame = True
            for _, _, bk in backs:
                v = self.scalar_get(bk, key)
                if val_eq_safe(self.dom, h, v) is not True:
                    allsame = False
                if isinstance(h, Ptr):
                    if not isinstance(v, Ptr) or v.b != h.b:
                        ds.append(None)
                        continue
                    ds.append(isub(unwrap(v.off), h.off))
                elif isinstance(h, (int, z3.ExprRef)) and not isinstance(h, (bool, z3.BoolRef)) and isinstance(v, (int, z3.ExprRef)) and not isinstance(v, (bool, z3.BoolRef)):
                    ds.append(isub(unwrap(v), h))
                else:
                    ds.append(None)
            if allsame:
                self.constant.add(key)
                ch = True
                continue
            d = ds[0]
            if d is None or any(x is None for x in ds):
                continue
            if all(type(x) is type(d) and (x == d if isinstance(d, int) else x.get_id() == d.get_id()) for x in ds) and serial_ok(d, self.serial0):
                if isinstance(d, int) and d == 0:
                    self.constant.add(key)
                else:
                    self.stride[key] = d
                ch = True
        if ch or len(backs) != 1:
            return ch
        for key in self.keys:
            if key in self.constant or key in self.delay or self.stride.get(key) is not None:
                continue
            i, v = self.init[key], self.scalar_get(backs[0][2], key)
            if isinstance(i, Ptr) or not isinstance(i, (bool, int, z3.ExprRef)) or not isinstance(v, (bool, int, z3.ExprRef)):
                continue
            if isinstance(i, (bool, z3.BoolRef)) == isinstance(v, (bool, z3.BoolRef)) and serial_ok(v, self.serial0, (self.nname,)):
                self.delay[key] = v
                self.fresh_of.pop(key, None)
                ch = True
        return ch

    def verify_strides(self, backs):
        bad = []
        n1 = iadd(self.n, 1)
        for key in self.keys:
            d = self.stride.get(key)
            init = self.init[key]
            for _, _, bk in backs:
                v = self.scalar_get(bk, key)
                if key in self.constant:
                    e = val_eq_safe(self.dom, v, init)
                elif d is not None:
                    if isinstance(init, Ptr):
                        if not isinstance(v, Ptr) or v.b != init.b:
                            bad.append(key)
                            break
                        e = ieq(v.off, iadd(init.off, imul(d, n1)))
                    else:
                        e = ieq(v, iadd(init, imul(d, n1)))
                elif key in self.delay:
                    e = val_eq_safe(self.dom, v, self.delay[key])
                else:
                    if isinstance(init, Ptr) and (not isinstance(v, Ptr) or v.b != init.b):
                        raise Unsupported('loop pointer moves between objects: %s %r' % (self.name, key))
                    continue
                if not self.ctx.prove_quick(bk, e, 1.0):
                    bad.append(key)
                    break
        for key in bad:
            self.stride.pop(key, None)
            if key in self.delay:
                raise Unsupported('loop variable is not a function of the iteration: %s %r' % (self.name, key))
            self.constant.discard(key)
            self.nostride.add(key)
        return not bad

    def seg_guess(self, head, backs):
        """describe the writes of iteration n as (first index, step, value(m))"""
        ch = False
        nhead = len(head.pc)
        for sk, info in self.segs.items():
            if info.get('writes') or info.get('nosum'):
                continue
            H = self.hseg[sk]
            init_chain = self.st0.blk(sk[0]).segs[sk[1]].chain
            order = []
            vals = {}
            ok = True
            for bi, (_, _, bk) in enumerate(backs):
                ws = self.collect(bk.blk(sk[0]).segs[sk[1]].chain, H, True)
                if ws is None:
                    ok = False
                    break
                cond = And(*bk.pc[nhead:]) if len(backs) > 1 else True
                for c, idx, v in ws:
                    key = idx if isinstance(idx, int) else ('t', idx.get_id())
                    if key not in vals:
                        order.append((key, idx))
                        vals[key] = H.read(idx, bk, info['w'], info['kind'])
                    try:
                        vals[key] = ite_val(self.dom, And(cond, c), v, vals[key], 8 * info['w'])
                    except MergeFail:
                        ok = False
            if not ok:
                info['nosum'] = True
                continue
            writes = []
            for key, idx in order:
                l = to_lin(idx)
                co = l[1].get(self.n.get_id())
                rest = from_lin((l[0], {k: x for k, x in l[1].items() if k != self.n.get_id()}))
                if not co or not serial_ok(rest, self.serial0):
                    # an element index that is not linear in the iteration number: the loop may be storing
                    # parts of elements; look at it byte by byte
                    b0 = self.st0.wblk(sk[0])
                    s0 = b0.segs[sk[1]]
                    if info['w'] > 1 and s0.w == info['w'] and any(x.decl().name() == self.nname for x in symbols(idx).values()) and type(s0.chain).__name__ not in ("OpaqueC", "ZeroC"):
                        b0.segs[sk[1]] = Seg(s0.start, s0.size, 1, 'i', PunC(s0.chain, s0.w, 1))
                        info.update(w=1, kind='i')
                        return True
                    ok = False
                    break
                v = vals[key]
                if isinstance(H, BaseC):
                    v = rewrite_apps(v, H.fn.name(), lambda i: init_chain.read(i, self.st0, info['w'], info['kind']))
                if not serial_ok(v, self.serial0, (self.nname,)):
                    ok = False
                    break
                writes.append((rest, co[0], (lambda v: lambda m: subst_val(v, {self.nname: m}))(v)))
            if not ok:
                info['nosum'] = True
                continue
            info['writes'] = writes
            ch = True
        return ch

    def collect(self, chain, H, cond):
        out = []
        c = chain
        while c is not H:
            if isinstance(c, StoreC):
                out.append((True, c.idx, c.val))
                c = c.prev
            elif isinstance(c, FillC) and isinstance(c.n, int) and c.n == 1:
                out.append((True, c.idx, c.val))
                c = c.prev
            elif isinstance(c, IteC):
                a = self.collect(c.a, H, True)
                b = self.collect(c.b, H, True)
                if a is None or b is None:
                    return None
                out = [(And(c.c, x), i, v) for x, i, v in reversed(a)] + [] if False else out
                res = [(And(c.c, x), i, v) for x, i, v in a] + [(And(Not(c.c), x), i, v) for x, i, v in b]
                return res + out[::-1]
            else:
                return None
        return out[::-1]

    def hist_guess(self, head, backs):
        if self.nohist:
            return None
        nhead = len(head.pc)
        hf = set(id(f) for f in head.facts)
        hs = set(p.get_id() for p in head.pc)
        alts, factsets = [], []
        complete = True

        def usable(t):
            """no function symbol introduced inside the iteration"""
            for x in symbols(t).values():
                if self.absb and sym_serial(x.decl().name()) > self.serial0 and x.decl().name() != self.nname:
                    return False
                if x.num_args() and sym_serial(x.decl().name()) > self.serial0:
                    return False
                if not x.num_args() and sym_serial(x.decl().name()) > self.serial0 and not (z3.is_int(x) or z3.is_bool(x) or z3.is_bv(x)):
                    return False
            return True
        for _, _, bk in backs:
            lits = []
            for p in bk.pc:
                if p.get_id() in hs:
                    continue
                if usable(p):
                    lits.append(p)
                else:
                    complete = False
            alts.append(And(*lits))
            fl = []
            for f in bk.facts:
                if id(f) in hf or self.absb:
                    continue
                r = self.abstract_fact(f, usable, 0)
                if r is not None:
                    fl.append(r)
            factsets.append(fl)
        h = Or(*alts)
        facts = []
        if len(backs) == 1:
            facts = factsets[0]
        elif complete:
            for al, fl in zip(alts, factsets):
                facts += [self.guard_ft(f, al) for f in fl]
        # canonical ghost functions for the unknowns of an iteration
        cs = {}

        def note(t):
            if isinstance(t, bool):
                return
            for x in symbols(t).values():
                nm = x.decl().name()
                if not x.num_args() and sym_serial(nm) > self.serial0 and nm != self.nname and not nm.startswith('Q!'):
                    cs[nm] = x

        def notef(f):
            note(f[1])
            for g in f[2]:
                notef(g)
        note(h)
        for f in facts:
            notef(f)
        mp = {}
        for i, nm in enumerate(sorted(cs, key=sym_serial)):
            x = cs[nm]
            gn = 'gh_%s_%d' % (self.nname, i)
            r = RANGE.get(nm)
            if r:
                RANGE[gn] = r
            F = z3.Function(gn, z3.IntSort(), x.sort())
            KEEP.append(F)
            mp[nm] = keep(F(self.n))

        def sub(t):
            return t if isinstance(t, bool) or not mp else subst(t, mp)

        def subf(f):
            return (f[0], sub(f[1]), [subf(g) for g in f[2]])
        h = sub(h)
        facts = [subf(f) for f in facts]
        facts = [f for f in facts if f[1] is not True or f[2]]
        if h is False:
            return None
        if isinstance(h, bool) and not facts:
            return None
        return _Hist(h, facts)

    def abstract_fact(self, f, usable, depth):
        q = 'Q!%d' % depth
        v = keep(z3.Int(q))
        try:
            b, fs = f.inst(v)
        except Exception:
            return None
        if not isinstance(b, bool) and not usable(b):
            b = True
        nested = []
        if depth < 2:
            for g in fs:
                r = self.abstract_fact(g, usable, depth + 1)
                if r is not None:
                    nested.append(r)
        if b is True and not nested:
            return None
        return (q, b, nested)

    def guard_ft(self, f, c):
        return (f[0], Implies(c, f[1]), [self.guard_ft(g, c) for g in f[2]])

    def cand_list(self):
        """bounds for variables without a constant stride"""
        out = []
        fresh = [k for k in self.keys if k not in self.constant and self.stride.get(k) is None and k not in self.delay and k in self.fresh_of]
        others = [k for k in self.keys if isinstance(self.hv.get(k), (int, z3.ExprRef)) and not isinstance(self.hv[k], (bool, z3.BoolRef))]

        def off(v):
            return v.off if isinstance(v, Ptr) else v
        for k in fresh:
            init = off(self.init[k])
            if isinstance(init, (int, z3.ExprRef)):
                out.append(('%s >= start' % (k,), lambda hv, n, st, k=k, i=init: ile(i, off(hv[k]))))
                out.append(('%s <= start' % (k,), lambda hv, n, st, k=k, i=init: ile(off(hv[k]), i)))
            out.append(('%s >= 0' % (k,), lambda hv, n, st, k=k: ile(0, off(hv[k]))))
            for o in others:
                if o == k:
                    continue
                oi = self.init[o]
                if isinstance(init, (int, z3.ExprRef)) and isinstance(oi, (int, z3.ExprRef)):
                    d = isub(init, oi)
                    out.append(('%s <= %s + start difference' % (k, o), lambda hv, n, st, k=k, o=o, d=d: ile(off(hv[k]), iadd(off(hv[o]), d))))
                    out.append(('%s >= %s + start difference' % (k, o), lambda hv, n, st, k=k, o=o, d=d: ile(iadd(off(hv[o]), d), off(hv[k]))))
                out.append(('%s <= %s' % (k, o), lambda hv, n, st, k=k, o=o: ile(off(hv[k]), off(hv[o]))))
        from .world import mkn, raw
        for key, lf in self.blens:
            if key in self.keys:
                out.append(('builder length', lambda hv, n, st, key=key, lf=lf: ieq(hv[key], raw(lf(mkn(n)))), 'hint'))
        for hint in self.ctx.loop_hints:
            out.extend((c[0], c[1], 'hint') for c in hint(self) or [])
        return out

    def back_vals(self, bk):
        return {k: self.scalar_get(bk, k) for k in self.keys}

    def check_cands(self, backs):
        n1 = iadd(self.n, 1)
        keep_ = []
        ok = True
        for c in self.cands:
            good = True
            for _, _, bk in backs:
                g = c[1](self.back_vals(bk), n1, bk)
                if len(c) > 2:
                    b2 = bk.fork()
                    b2.facts[:] = [f for f in bk.facts if not f.name.startswith('history')]
                    if self.ctx.prove_quick(b2, g, 6.0, rounds=4):
                        continue
                if not self.ctx.prove_quick(bk, g, 2.0 if len(c) < 3 else 8.0, rounds=4 if len(c) > 2 else 2):
                    good = False
                    break
            if good:
                keep_.append(c)
            else:
                ok = False
        self.cands = keep_
        return ok

    def check_segs(self, backs):
        ok = True
        n1 = iadd(self.n, 1)
        for sk, info in self.segs.items():
            if not info.get('writes'):
                continue
            init_chain = self.st0.blk(sk[0]).segs[sk[1]].chain
            nxt = LoopC(init_chain, info['writes'], n1)
            for _, _, bk in backs:
                s = bk.blk(sk[0]).segs[sk[1]]
                g, pre = self.seg_goal(bk, s, nxt, info)
                b2 = bk.fork()
                for p in pre:
                    b2.assume(p)
                if s.w != info['w'] or not self.ctx.prove_quick(b2, g, 3.0):
                    info['writes'] = None
                    info['nosum'] = True
                    ok = False
                    break
        return ok

    def seg_goal(self, st, s, nxt, info):
        k = INT.var(fresh_name('k'), 0, INF)
        pre = []
        if isinstance(s.size, int):
            pre.append(ilt(k, s.size // info['w']))
        else:
            pre.append(ilt(imul(k, info['w']), s.size))
        b2 = st.fork()
        for p in pre:
            b2.assume(p)
        return val_eq(self.dom, s.chain.read(k, b2, info['w'], info['kind']), nxt.read(k, b2, info['w'], info['kind'])), pre

    def check_hist(self, head, backs):
        """the history assumed of earlier iterations is exactly what this iteration establishes"""
        if self.hist is None:
            return True
        h = self.hist_guess(head, backs)
        if h is not None and h.key() == self.hist.key():
            return True
        self.nhist += 1
        self.hist = h if self.nhist < 6 else None
        return False

    def merge_backs(self, backs):
        if len(backs) <= 1 or self.absb and len(backs) <= 4:
            return backs
        ms = self.eng.merge_states([s for _, _, s in backs], self.fr, self.header)
        return [(self.header, None, s) for s in ms]

    def iterate(self):
        head = self.havoc()
        hcopy = head.fork()
        self.npc = len(head.pc)
        if not self.ctx.feasible(hcopy):
            return hcopy, [], [], []
        exits, backs, outs = self.one(self.abs_heads(head))
        backs = [b for b in backs if self.ctx.feasible(b[2])]
        backs = self.merge_backs(backs)
        # blocks materialised lazily (globals) count as part of the head state
        for _, _, bk in backs:
            for bid in bk.mem:
                if bid not in hcopy.mem and bid in self.ctx.ginit:
                    hcopy.mem[bid] = self.ctx.ginit[bid]
        return hcopy, exits, backs, outs

    def invariant(self):
        ctx = self.ctx
        self.serial0 = T._fresh[0]
        # ghost iteration counter
        self.nname = fresh_name('iter')
        self.n = INT.var(self.nname, 0, INF)
        self.keys = [('r', p.res) for p in self.phis]
        self.init = {k: self.scalar_init(k) for k in self.keys}
        self.stride, self.delay, self.constant, self.nostride = {}, {}, set(), set()
        self.fresh_of, self.segs, self.cands, self.hist, self.nhist = {}, {}, [], None, 0
        self.hint_facts = []
        self.blens = []
        self.guessed = self.deferred = False
        self.absb = self.find_builders()
        ctx.silent += 1
        try:
            if self.absb and not self.touched():
                self.absb, self.blens = [], []
            stable = 0
            cands_made = False
            for rnd in range(14):
                head, exits, backs, outs = self.iterate()
                if not backs:
                    break
                changed = self.mods(head, backs)
                for key in self.keys:
                    if key not in self.hv:
                        self.hv[key] = self.init[key]
                if changed:
                    continue
                if not self.verify_strides(backs):
                    continue
                if self.guess(head, backs):
                    continue
                if not self.guessed:
                    self.guessed = True
                    if self.deferred:
                        continue
                if rnd and not cands_made and self.small_bound(backs):
                    return None
                if self.seg_guess(head, backs):
                    continue
                h = self.hist_guess(head, backs)
                if self.hist is None and h is not None and not cands_made:
                    self.hist = h
                    cands_made = True
                    self.cands = self.initial_cands(backs)
                    continue
                if not cands_made:
                    cands_made = True
                    self.cands = self.initial_cands(backs)
                    if self.cands:
                        continue
                ok = self.check_segs(backs)
                ok = self.check_hist(head, backs) and ok
                ok = self.check_cands(backs) and ok
                if ok:
                    break
            else:
                raise Unsupported('no stable loop invariant found: ' + self.name)
        finally:
            ctx.silent -= 1
        # final run: obligations on
        st0 = self.st0
        for c in self.cands:
            ctx.oblige(st0.fork(), c[1](self.init, 0, st0), 'loop invariant holds on entry: %s' % c[0], 'invariant', self.name)
        if self.absb:
            self.abs_check(st0, 'on entry', 0)
        head, exits, backs, outs = self.iterate()
        hist = self.hist_guess(head, backs) if backs and self.hist is not None else None
        n1 = iadd(self.n, 1)
        for _, _, bk in backs:
            if self.absb:
                self.abs_check(bk, 'is preserved', n1)
            for key in self.keys:
                d = self.stride.get(key)
                init = self.init[key]
                v = self.scalar_get(bk, key)
                if key in self.constant:
                    g = val_eq_safe(self.dom, v, init)
                elif d is not None:
                    o = iadd(init.off if isinstance(init, Ptr) else init, imul(d, n1))
                    g = ieq(v.off if isinstance(v, Ptr) else v, o)
                    if isinstance(init, Ptr) and v.b != init.b:
                        g = False
                elif key in self.delay:
                    g = val_eq_safe(self.dom, v, self.delay[key])
                else:
                    if isinstance(init, Ptr) and (not isinstance(v, Ptr) or v.b != init.b):
                        raise Unsupported('loop pointer moves between objects: ' + self.name)
                    continue
                ctx.oblige(bk, g, 'loop variable advances by its stride: %s' % (key,), 'invariant', self.name)
            for c in self.cands:
                ctx.oblige(bk, c[1](self.back_vals(bk), n1, bk), 'loop invariant is preserved: %s' % c[0], 'invariant', self.name)
            for sk, info in self.segs.items():
                if info.get('writes'):
                    nxt = LoopC(st0.blk(sk[0]).segs[sk[1]].chain, info['writes'], n1)
                    s = bk.blk(sk[0]).segs[sk[1]]
                    g, pre = self.seg_goal(bk, s, nxt, info)
                    b2 = bk.fork()
                    for p in pre:
                        b2.assume(p)
                    ctx.oblige(b2, g, 'array effect of the loop is preserved', 'invariant', self.name)
            # nothing outside the declared modifications changes
            if self.mods(head, [(None, None, bk)]):
                raise Unsupported('loop modifies more in the final pass: ' + self.name)
        if backs and self.hist is not None:
            if hist is None or hist.key() != self.hist.key():
                raise _Unstable()
            ctx.record(backs[0][2], True, 'iteration history is preserved', 'invariant', self.name, 'proved', 0.0, 'simplifier')
        if backs:
            self.termination(backs)
        return exits, outs

    def path_cands(self, backs):
        """what every iteration requires of the iteration number: a condition it tested (true of the
        previous number once n > 0), and the side of a `!=` exit on which the loop stays"""
        out, common = [], None
        for _, _, bk in backs:
            here = {}
            for p in bk.pc[self.npc:]:
                for q in (p.children() if z3.is_and(p) else [p]):
                    if any(x.decl().name() == self.nname for x in symbols(q).values()) and serial_ok(q, self.serial0, (self.nname,)):
                        here[q.get_id()] = q
            common = here if common is None else {k: v for k, v in common.items() if k in here}
        for q in (common or {}).values():
            e = lit_of(q.arg(0)) if z3.is_not(q) else None
            if e and e[0] == 'eq':
                c, t = to_lin(isub(e[1], e[2]))
                m = [v for _, v in t.items() if unz(v[1]).get_id() == self.n.get_id()] if t else []
                if len(m) == 1 and serial_ok(isub(isub(e[1], e[2]), imul(m[0][0], self.n)), self.serial0):
                    d, k = isub(e[1], e[2]), m[0][0]
                    out.append(('the counter has not passed its stop', lambda hv, n, st, d=d, k=k: (ile if k > 0 else lambda a, b: ile(b, a))(subst(d, {self.nname: n}), 0)))
            if self.hist is None:
                out.append(('tested by the previous iteration', lambda hv, n, st, q=q: Or(ile(n, 0), subst(q, {self.nname: isub(n, 1)}))))
        return out

    def initial_cands(self, backs):
        out = []
        for c in self.cand_list() + self.path_cands(backs):
            try:
                g = c[1](self.init, 0, self.st0)
            except (TypeError, AttributeError):
                continue
            if self.ctx.prove_quick(self.st0, g, 0.5):
                out.append(c)
        return out

    def small_bound(self, backs):
        """is the trip count provably below the unroll limit?"""
        lim = self.eng.unroll_limit - 4
        for _, _, bk in backs:
            if not self.ctx.prove_quick(bk, ilt(self.n, lim), 0.5):
                return False
        return True

    def termination(self, backs):
        ctx = self.ctx
        if ctx.silent:
            return
        cands = []
        bk0 = backs[0][2]
        for p in bk0.pc[self.npc:]:
            ls = [p]
            if z3.is_and(p):
                ls = p.children()
            for q in ls:
                l = lit_of(q)
                if l and l[0] in ('ge', 'le'):
                    m = isub(l[1], l[2]) if l[0] == 'ge' else isub(l[2], l[1])
                    cands.append(m)
                elif l is None and z3.is_not(q):
                    e = lit_of(q.arg(0))
                    if e and e[0] == 'eq':
                        cands.append(isub(e[1], e[2]))
                        cands.append(isub(e[2], e[1]))
        # differences of loop variables and variables themselves
        for k, v in self.hv.items():
            if isinstance(v, z3.ExprRef) and not isinstance(v, z3.BoolRef) and z3.is_int(v):
                cands.append(v)
        sub_head = {}
        for m in cands:
            good = True
            for _, _, bk in backs:
                # measure after the iteration
                mp = {self.nname: iadd(self.n, 1)}
                for k, hv in self.hv.items():
                    if k in self.fresh_of:
                        nv = self.scalar_get(bk, k)
                        nm = self.fresh_of[k].decl().name()
                        mp[nm] = nv.off if isinstance(nv, Ptr) else nv
                m2 = subst(m, mp)
                if not serial_ok(m, self.serial0, tuple(mp)):
                    good = False
                    break
                if not ctx.prove_quick(bk, And(ile(0, m), ilt(m2, m)), 0.5):
                    good = False
                    break
            if good:
                ctx.record(bk0, True, 'loop terminates (decreasing measure %s)' % str(m).replace('\n', ' ')[:80], 'termination', self.name, 'proved', 0.0, 'z3')
                return
        ctx.oblige(bk0, keep(z3.Bool(fresh_name('terminates'))), 'loop terminates', 'termination', self.name, assume=False)


class _Unstable(Exception):
    pass


class _Hist:
    def __init__(self, term, facts):
        self.term, self.facts = term, facts

    def key(self):
        def k(t):
            return t if isinstance(t, bool) else t.get_id()

        def kf(f):
            return (f[0], k(f[1]), tuple(kf(g) for g in f[2]))
        return (k(self.term), tuple(kf(f) for f in self.facts))


_PROBE = [z3.Int('probe!arg')]


LazyC_types = (ZeroC,)


def val_eq_safe(dom, a, b):
    try:
        return val_eq(dom, a, b)
    except (TypeError, AttributeError, z3.Z3Exception):
        return False
