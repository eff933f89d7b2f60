"""Verification of one contract against the current code: obligations function by function."""
import time
import traceback
import z3
from . import ir
from .terms import *
from .mem import *
from .mem import Unsupported
from .core import Ctx, Engine
from .world import *
from .world import TY, TYSIZE, Infeasible
from .setup import SymSetup, BVN
from .loops import val_eq
from .prover import Solver
from .fl import Wd
from . import externs
from . import terms as T

REG = {}           # contract id -> Contract
BYFN = {}          # mangled -> Contract usable at call sites


class Contract:
    def __init__(self, cid, props, fn, setup, spec, ret='void', requires=None, summary=False, timeout=240, uses=(), opts=None, doc='', bounded=None, fork=False, search=1500,
                 nosearch=False, helper=False, optional=False, thorough=False, weight=1, assumes=()):
        self.id, self.props, self.fn, self.setup, self.spec, self.ret = cid, props, fn, setup, spec, ret
        self.requires, self.summary, self.timeout, self.uses = requires, summary, timeout, tuple(uses)
        self.opts = opts or {}
        self.doc, self.bounded, self.fork, self.search = doc, bounded, fork, search
        self.nosearch, self.helper, self.optional, self.thorough, self.weight, self.assumes = nosearch, helper, optional, thorough, weight, tuple(assumes)


def contract(cid, props, fn, ret='void', setup=None, spec=None, **kw):
    if isinstance(props, str):
        props = [props]

    def reg(setup, spec):
        c = Contract(cid, props, fn, setup, spec, ret, **kw)
        assert cid not in REG, cid
        REG[cid] = c
        if c.summary:
            BYFN[fn] = c
        return c
    if setup is not None:
        return reg(setup, spec)

    def deco(cls):
        reg(cls.setup, cls.spec)
        return cls
    return deco


# ------------------------------------------------------------------ initial state
def initial_state(eng):
    ctx = eng.ctx
    dom, eng.dom, ctx.dom = eng.dom, INT, INT      # static initialisers are straight-line code over constants
    try:
        return initial_state_(eng)
    finally:
        eng.dom = ctx.dom = dom


def initial_state_(eng):
    ctx = eng.ctx
    st = State(ctx)
    g = ctx.mod.globals.get('llvm.global_ctors')
    if g is not None and g.init is not None:
        for e in g.init[2]:
            fn = e[2][1][1]
            r = eng.call_function(st, fn, [])
            if len(r) != 1 or r[0][1][0] != 'ret':
                raise Unsupported('static initialisation has several outcomes')
            st = r[0][0]
    for bid, b in st.mem.items():
        if b.origin == 'global':
            ctx.ginit[bid] = b
        elif b.origin == 'heap':
            b = b.copy()
            b.origin = 'static'
            ctx.ginit[bid] = b
    init = State(ctx)
    return init


def lower_args(eng, st, f, args):
    out = []
    if len(args) != len(f.params):
        raise Unsupported('%s takes %d arguments, the contract gives %d' % (f.name, len(f.params), len(args)))
    for (t, nm), a in zip(f.params, args):
        rt = eng.mod.resolve(t)
        v = raw(a)
        if isinstance(v, F):
            v = v.v
        if rt[0] == 'i':
            if isinstance(v, (bool, z3.BoolRef)):
                v = v if rt[1] == 1 else eng.dom.b2i(v, rt[1])
            elif isinstance(v, (BVN, Wd)):
                v = v.t
            elif rt[1] == 1:
                raise Unsupported('boolean argument')
            else:
                v = INT.wrap(rt[1], v, st) if eng.dom is INT else v
        out.append(v)
    return out


class Report:
    def __init__(self, c):
        self.c = c
        self.obls = []
        self.status = 'ok'        # ok | failed | error
        self.error = None
        self.wall = 0
        self.cases = 0
        self.paths = 0
        self.covered = {}
        self.cover_tries = []
        self.models = []          # (SymSetup, model, obligation name)
        self.inlined = set()
        self.used = set()
        self.stats = {}
        self.ext = set()
        self.sat_pre = 0


def call_spec(c, W, args):
    try:
        return ('ret', c.spec(W, *args))
    except Throw as t:
        return ('exc', t.name)


def verify(c, mod, budget=None, extra=None, ob_timeout=10.0, cross=False, nouse=(), opts=None):
    rep = Report(c)
    t0 = time.time()
    ctx = Ctx(mod, c.opts.get('dom', INT))
    ctx.ob_timeout = ob_timeout
    ctx.solver.cross = cross
    ctx.deadline = t0 + (budget or c.timeout)
    eng = Engine(ctx)
    for k, v in dict(c.opts, **(opts or {})).items():
        if k in ('unroll_limit', 'unroll_all', 'merge_joins'):
            setattr(eng, k, v)
        if k in ('loop_hints', 'max_paths', 'check_exceptions', 'malloc_fails', 'quick_timeout', 'ob_timeout', 'loop_builder', 'abstract_buffers', 'prove_lemmas', 'opaque'):
            setattr(ctx, k, v)
    externs.USED.clear()
    try:
        f = mod.fn(c.fn)
        if f is None:
            raise Unsupported('function %s is not in the current source' % c.fn)
        base = initial_state(eng)
        ctx.obls = []
        for u in c.uses:
            cc = REG[u]
            if u in nouse or (cc.optional and mod.fn(cc.fn) is None):
                continue
            ctx.contracts[mod.aliases.get(cc.fn, cc.fn)] = summary(cc)
        setups = explore_setup(eng, base, c.setup)
        if not setups:
            raise Unsupported('the precondition admits nothing')
        for S, args in setups:
            rep.cases += 1
            ctx.loop_hints = list(c.opts.get('loop_hints', [])) + getattr(S, 'hints', [])
            ctx.loop_builder = getattr(S, 'loop_builder', None) or c.opts.get('loop_builder')
            ctx.case = ','.join('%s=%s' % kv for kv in sorted(S.choices.items()))
            r, _ = ctx.solver.check(S.st.pc, S.st.facts, 2.0, full=True)
            if r == 'unsat':
                continue
            if r == 'sat':
                rep.sat_pre += 1
            n0 = len(ctx.obls)
            try:
                verify_case(c, eng, ctx, rep, f, S, args)
            finally:
                for o in ctx.obls[n0:]:
                    if o.status != 'proved':
                        rep.models.append((S, getattr(o, 'model', None), o.name))
        if rep.sat_pre == 0:
            raise Unsupported('no case of the precondition was shown satisfiable (vacuity check)')
        if not rep.covered:
            raise Unsupported('no outcome was shown reachable (vacuity check)')
    except Unsupported as e:
        rep.status = 'error'
        rep.error = str(e)
    except RecursionError:
        rep.status = 'error'
        rep.error = 'recursion limit'
    except MergeFail as e:
        rep.status = 'error'
        rep.error = 'merge: %s' % e
    except PathEnd:
        rep.status = 'error'
        rep.error = 'path end outside of execution'
    except Exception as e:
        rep.status = 'error'
        rep.error = 'internal: ' + traceback.format_exc()[-1500:]
    for g in sorted(ctx.gmut):
        try:
            ctx.oblige(State(ctx), False, 'constancy: the global %s is read as its initial value but some function writes it' % g, 'constancy', c.fn)
        except (PathEnd, Unsupported):
            pass
    rep.obls = ctx.obls
    if rep.status == 'ok' and any(o.status != 'proved' for o in rep.obls):
        rep.status = 'failed'
    if rep.status == 'ok' and not rep.obls and not rep.covered:
        rep.status, rep.error = 'error', 'no obligation was generated'
    rep.wall = time.time() - t0
    rep.inlined = set(ctx.inlined)
    rep.used = set(ctx.used_contracts)
    rep.stats = dict(ctx.solver.stats)
    rep.ext = set(externs.USED)
    return rep


def explore_setup(eng, base, setup):
    pending = [[]]
    out = []
    while pending:
        trail = pending.pop()
        S = SymSetup(eng, base.fork(), trail, pending)
        S.init()
        save = CUR[0]
        CUR[0] = S
        try:
            args = setup(S)
            out.append((S, list(args)))
        except (Infeasible, Reject):
            pass
        finally:
            CUR[0] = save
    return out


def verify_case(c, eng, ctx, rep, f, S, args):
    pre = S.st
    la = lower_args(eng, pre, f, args)
    st = pre.fork()
    me = ctx.contracts.pop(f.name, None)
    ctx.cur_args = args
    eng.frames = []
    ctx.inlined.add(f.name)
    outs = eng.exec_function(st, f, la)
    if me is not None:
        ctx.contracts[f.name] = me
    for stf, outcome in outs:
        rep.paths += 1
        b2 = stf.fork()
        b2.mem = dict(pre.mem)
        b2.regs = {}

        def go(W):
            W.inputs = S
            return call_spec(c, W, args)
        for W, exp in explore(eng, b2, go):
            key = exp[0] if exp[0] == 'ret' else exp[1]
            if key not in rep.covered:
                r, _ = ctx.solver.check(W.st.pc, W.st.facts, 1.0, full=True)
                if r == 'unknown' and rep.cover_tries.count(key) < 8:
                    rep.cover_tries.append(key)
                    r = pinned(ctx, W, S)
                if r == 'sat':
                    rep.covered[key] = 1
            try:
                compare(c, eng, ctx, pre, W, stf, outcome, exp)
            except PathEnd:
                pass


PINS = (0, 1, 2, 5, 12, 31, 366, 86400, -1, 864000000000, 630822816000000000, 3155378975999999999)


def pinned(ctx, W, S):
    """the vacuity check again with the inputs set to a value"""
    for v in PINS:
        eqs = []
        for x in S.vars.values():
            x = getattr(x, 't', x)
            if not z3.is_expr(x):
                continue
            if z3.is_int(x):
                eqs.append(x == v)
            elif z3.is_bv(x):
                eqs.append(x == z3.BitVecVal(v, x.size()))
        if eqs:
            r, _ = ctx.solver.check(list(W.st.pc) + eqs, W.st.facts, 1.0, full=True)
            if r == 'sat':
                return r
    return 'unknown'


def compare(c, eng, ctx, pre, W, stf, outcome, exp):
    where = c.fn
    chk = W.st.fork()
    expmem = W.st.mem
    chk.mem = dict(stf.mem)
    if outcome[0] != exp[0] or (outcome[0] == 'exc' and outcome[1] != exp[1]):
        a = 'returns' if outcome[0] == 'ret' else 'throws ' + str(outcome[1])
        b = 'returns' if exp[0] == 'ret' else 'throws ' + str(exp[1])
        ctx.oblige(chk, False, 'outcome: the code %s where the contract says it %s' % (a, b), 'postcondition', where)
        return
    save = CUR[0]
    CUR[0] = W
    try:
        if exp[0] == 'ret' and exp[1] is not SpecAny:
            match(eng, ctx, chk, W, exp[1], outcome[1], c.ret, 'result', where, pre)
        frame(eng, ctx, chk, W, pre, expmem, stf, where)
        for p, d in W.built:
            ctx.inplace = p.b
            try:
                match(eng, ctx, chk, W, d, p, 'ptr', 'object', where, pre)
            finally:
                ctx.inplace = None
        for v in W.views:
            P = SymWorld(eng, chk.fork())
            P.inputs = W.inputs if hasattr(W, 'inputs') else None
            v(P, ViewCheck(eng, ctx, P, W, where))
    finally:
        CUR[0] = save


class ViewCheck:
    """ck(name, cond): obligation over the post state; ck.all(name, lo, hi, pred)"""

    def __init__(self, eng, ctx, P, W, where):
        self.eng, self.ctx, self.P, self.W, self.where = eng, ctx, P, W, where

    prefix = ''

    def __call__(self, name, cond):
        goal(self.ctx, self.P.st, raw(cond), self.prefix + name, self.where)

    def all(self, name, lo, hi, pred):
        lo, hi = raw(lo), raw(hi)
        P, W = self.P, self.W
        if isinstance(lo, int) and isinstance(hi, int) and hi - lo <= 8:
            for k in range(lo, hi):
                self(name, pred(k))
            return
        s2 = P.st.fork()
        k = INT.var(fresh_name('k'), 0, 1 << 40)
        s2.assume(And(ile(lo, k), ilt(k, hi)))
        pst, P.st = P.st, s2
        wst, W.st = W.st, s2.fork()
        W.st.mem = wst.mem
        CUR0 = CUR[0]
        CUR[0] = P
        try:
            g = raw(pred(mkn(k)))
        finally:
            for x in (W.st,):
                have = set(id(f) for f in s2.facts)
                s2.facts.extend(f for f in x.facts if id(f) not in have)
                for c in x.pc:
                    if c.get_id() not in set(y.get_id() for y in s2.pc):
                        s2.assume(c)
            P.st, W.st = pst, wst
            CUR[0] = CUR0
        self.ctx.oblige(s2, g, self.prefix + name, 'postcondition', self.where, assume=False)


class SpecAny:
    pass


def goal(ctx, st, g, name, where):
    ctx.oblige(st.fork(), g, name, 'postcondition', where, assume=False)


def match(eng, ctx, st, W, d, v, ty, name, where, pre):
    dom = eng.dom
    if d is None:
        if ty not in ('void',):
            raise Unsupported('contract gives no result')
        return
    if isinstance(d, AnyOf):
        W2 = SymWorld(eng, st)
        save = CUR[0]
        CUR[0] = W2
        try:
            goal(ctx, st, raw(d.pred(W2, W2.lift(v, ty) if ty[0] in 'iu' else v)), name, where)
        finally:
            CUR[0] = save
        return
    if isinstance(d, NewStr):
        return match_str(eng, ctx, st, W, d, v, name, where)
    if isinstance(d, NewObj):
        return match_obj(eng, ctx, st, W, d, v, name, where, pre)
    if isinstance(d, NewArr):
        return match_arr(eng, ctx, st, W, d, v, name, where, pre)
    if isinstance(d, NewMem):
        return match_mem(eng, ctx, st, W, d, v, name, where, pre)
    if isinstance(d, (bool, B)):
        t = raw(d)
        if isinstance(v, (bool, z3.BoolRef)):
            goal(ctx, st, Iff(v, t), name, where)
        else:
            goal(ctx, st, dom.eq(v, dom.b2i(t, 8)), name, where)
        return
    if isinstance(d, F) or isinstance(d, FloatVal):
        e = d.v if isinstance(d, F) else d
        goal(ctx, st, float_same(e, v), name, where)
        return
    if isinstance(d, (Ptr, AddrPtr)):
        goal(ctx, st, eng.ptrcmp(st, 'eq', d, v, None), name, where)
        return
    if isinstance(d, Wd):
        goal(ctx, st, dom.eq(v, d.t if isinstance(d.t, int) and not z3.is_expr(v) else d.z()) if not isinstance(v, (bool, z3.BoolRef)) else dom.eq(dom.b2i(v, 8), d.z()), name, where)
        return
    if isinstance(d, (int, N)):
        if isinstance(v, (Ptr, AddrPtr)):
            raise Unsupported('pointer result')
        t = W.lower(d, ty)
        a, b = (int(ty[1:]), ty[0])
        dd = raw(d)
        # the specified number itself must be representable
        lo, hi = (0, (1 << a) - 1) if b == 'u' else (smin(a), smax(a))
        goal(ctx, st, And(ile(lo, dd), ile(dd, hi)), name + ' is representable', where)
        if isinstance(v, (bool, z3.BoolRef)):
            v = dom.b2i(v, 8)
        goal(ctx, st, dom.eq(v, t), name, where)
        return
    raise Unsupported('result description %r' % (d,))


def float_same(a, b):
    """same IEEE value (all NaNs equal, zeros distinguished by sign)"""
    if a is b:
        return True
    if a.has_bits() and b.has_bits():
        x, y = z3.simplify(a.bits), z3.simplify(b.bits)
        if x.eq(y):
            return True
    r = z3.simplify(a.fp == b.fp)
    if z3.is_true(r):
        return True
    if z3.is_false(r):
        return False
    return keep(r)


def deref(eng, ctx, st, v, name, where):
    if isinstance(v, AddrPtr):
        r = addr_resolve(v.t)
        if r is not None:
            v = r
    if not isinstance(v, Ptr):
        raise Unsupported('result pointer of unknown provenance')
    if v.b == 0:
        ctx.oblige(st, False, name + ': is not null', 'postcondition', where)
        raise PathEnd()
    b = st.blk(v.b)
    if b is None or not b.alive or b.origin and b.origin[0] == 'stack':
        ctx.oblige(st, False, name + ': points to live memory', 'postcondition', where)
        raise PathEnd()
    return v


def sload(eng, st, p, off, ty, name, where):
    """load with obligations reported as part of the postcondition"""
    return eng.load(st, Ptr(p.b, off_add(eng.dom, p.off, off)), TY[ty][:2] if TY[ty][0] == 'i' else TY[ty], None, name)


def check_vtable(eng, ctx, st, p, cls, name, where):
    v = sload(eng, st, p, 0, 'ptr', name, where)
    g = eng.ptrcmp(st, 'eq', v, Ptr(ctx.glob_id('_ZTVN13DotnetLibrary%d%sE' % (len(cls), cls)), 16), None)
    goal(ctx, st, g, name + ': is a ' + cls, where)


def match_str(eng, ctx, st, W, d, v, name, where):
    dom = eng.dom
    p = deref(eng, ctx, st, v, name, where)
    check_vtable(eng, ctx, st, p, 'String', name, where)
    ln = sload(eng, st, p, 16, 'i32', name, where)
    n = raw(d.length)
    ctx.oblige(st, dom.eq(ln, n), name + ': length', 'postcondition', where)
    data = sload(eng, st, p, 8, 'ptr', name, where)
    q = deref(eng, ctx, st, data, name + ' characters', where)
    b = st.blk(q.b)
    # terminator inside the block and zero
    t = sload(eng, st, q, off_mul(dom, n, 4), 'i32', name + ' terminator', where)
    goal(ctx, st, dom.eq(t, 0), name + ': characters are followed by a zero', where)
    if isinstance(n, int) and n <= 8:
        for k in range(n):
            c = sload(eng, st, q, 4 * k, 'i32', name, where)
            goal(ctx, st, dom.eq(c, raw(d.char(k))), name + ': characters', where)
        return
    s2 = st.fork()
    k = INT.var(fresh_name('k'), 0, 1 << 31)
    s2.assume(ilt(k, n))
    c = sload(eng, s2, q, imul(4, k), 'i32', name, where)
    oldst, W.st = W.st, s2.fork()
    W.st.mem = oldst.mem
    try:
        e = raw(d.char(mkn(k)))
    finally:
        s2.facts = W.st.facts
        s2.pc, s2.pcset, s2.env = W.st.pc, W.st.pcset, W.st.env
        W.st = oldst
    ctx.oblige(s2, dom.eq(c, e), name + ': characters', 'postcondition', where, assume=False)


def match_obj(eng, ctx, st, W, d, v, name, where, pre):
    p = deref(eng, ctx, st, v, name, where)
    if p.b != ctx.inplace and (p.b in pre.mem or p.b in ctx.ginit):
        ctx.oblige(st, False, name + ': is a new object', 'postcondition', where)
        raise PathEnd()
    check_vtable(eng, ctx, st, p, d.cls, name, where)
    for off, (ty, val) in d.cells.items():
        a = sload(eng, st, p, off, ty, name, where)
        match(eng, ctx, st, W, val, a, ty, name + ': field at %d' % off, where, pre)


def match_arr(eng, ctx, st, W, d, v, name, where, pre):
    dom = eng.dom
    p = deref(eng, ctx, st, v, name, where)
    if p.b != ctx.inplace and (p.b in pre.mem or p.b in ctx.ginit):
        ctx.oblige(st, False, name + ': is a new array', 'postcondition', where)
        raise PathEnd()
    check_vtable(eng, ctx, st, p, 'Array', name, where)
    for off, val in ((8, d.dtype), (12, d.dims[0]), (16, d.dims[1]), (20, d.dims[2]), (24, d.rank), (28, d.total)):
        a = sload(eng, st, p, off, 'i32', name, where)
        ctx.oblige(st, dom.eq(a, raw(val)), name + ': shape field at %d' % off, 'postcondition', where)
    ctx.oblige(st, dom.eq(sload(eng, st, p, 40, 'u8', name, where), 1), name + ': the array owns its storage', 'postcondition', where)
    data = sload(eng, st, p, 32, 'ptr', name, where)
    q = deref(eng, ctx, st, data, name + ' elements', where)
    if q.b in pre.mem or q.b in ctx.ginit:
        ctx.oblige(st, False, name + ': elements are new memory', 'postcondition', where)
    b = st.blk(q.b)
    n = raw(d.total)
    goal(ctx, st, dom.le(off_add(dom, q.off, off_mul(dom, n, d.w)), b.size), name + ': storage holds all elements', where)
    ty = d.kind
    if isinstance(n, int) and n <= 16:
        for k in range(n):
            a = sload(eng, st, q, d.w * k, ty, name, where)
            e = d.elem(k)
            if isinstance(e, (NewStr, NewObj, NewArr, Ptr)):
                match(eng, ctx, st, W, e, a, ty, name + ': element', where, pre)
            else:
                goal(ctx, st, veq(dom, a, W.lower(e, ty)), name + ': elements', where)
        return
    s2 = st.fork()
    k = INT.var(fresh_name('k'), 0, 1 << 31)
    s2.assume(ilt(k, n))
    a = sload(eng, s2, q, imul(d.w, k), ty, name, where)
    oldst, W.st = W.st, s2.fork()
    W.st.mem = oldst.mem
    try:
        e = W.lower(d.elem(mkn(k)), ty)
    finally:
        s2.facts = W.st.facts
        s2.pc, s2.pcset, s2.env = W.st.pc, W.st.pcset, W.st.env
        W.st = oldst
    ctx.oblige(s2, veq(dom, a, e), name + ': elements', 'postcondition', where, assume=False)


def match_mem(eng, ctx, st, W, d, v, name, where, pre):
    if isinstance(v, Ptr) and v.b == 0 and st.ghost.get('malloc failed'):
        return
    dom = eng.dom
    p = deref(eng, ctx, st, v, name, where)
    if p.b in pre.mem or p.b in ctx.ginit:
        ctx.oblige(st, False, name + ': is new memory', 'postcondition', where)
        raise PathEnd()
    b = st.blk(p.b)
    n = raw(d.size)
    goal(ctx, st, And(dom.eq(p.off, 0), dom.le(n, b.size)), name + ': has the requested size', where)
    s2 = st.fork()
    k = INT.var(fresh_name('k'), 0, 1 << 63)
    s2.assume(ilt(k, n))
    a = sload(eng, s2, p, k, 'u8', name, where)
    ctx.oblige(s2, dom.eq(a, 0), name + ': is zeroed', 'postcondition', where, assume=False)


def veq(dom, a, b):
    if isinstance(a, FloatVal) or isinstance(b, FloatVal):
        a = fbits(a)
        b = fbits(b)
        x, y = a, b
        if isinstance(x, FloatVal) and isinstance(y, FloatVal):
            r = z3.simplify(x.bits == y.bits)
            return True if z3.is_true(r) else False if z3.is_false(r) else keep(r)
    return val_eq(dom, a, b)


def fbits(v):
    return v


def frame(eng, ctx, st, W, pre, expmem, stf, where):
    """every object that existed before the call is exactly as the contract says"""
    dom = eng.dom
    for bid, fb in list(stf.mem.items()):
        eb = expmem.get(bid)
        if eb is None:
            eb = ctx.ginit.get(bid)
        if eb is None or bid in W.hidden:
            continue
        if fb is eb:
            continue
        nm = fb.name or 'object'
        if fb.alive != eb.alive:
            ctx.oblige(st, False, 'frame: %s is %s' % (nm, 'not released' if eb.alive else 'released'), 'frame', where)
            continue
        if not fb.alive:
            continue
        for off in sorted(set(fb.cells) | set(eb.cells)):
            a, e = fb.cells.get(off), eb.cells.get(off)
            if a is e:
                continue
            if a is None or e is None or a[0] != e[0]:
                x = a or e
                kind = x[1]
                t = ('ptr',) if kind == 'p' else (('f64',) if x[0] == 8 else ('f32',)) if kind == 'f' else ('i', 8 * x[0])
                if (e is None and eb.default == 'undef' and not [1 for o, y in eb.cells.items() if o < off + x[0] and o + y[0] > off]):
                    # never described by the contract; accept only if it was not written
                    if a is not None and is_undef_cell(a):
                        continue
                    ctx.oblige(st, False, 'frame: %s is not written at offset %d' % (nm, off), 'frame', where)
                    continue
                s1 = st.fork()
                s1.mem = dict(expmem)
                av = eng.load(st.fork(), Ptr(bid, off), t)
                ev = eng.load(s1, Ptr(bid, off), t)
            else:
                av, ev = a[2], e[2]
                if av is ev:
                    continue
                av, ev = eng.conv_kind(av, a[1], e[1], a[0]), ev
            g = veq(dom, av, ev) if not isinstance(ev, (Ptr, AddrPtr)) else eng.ptrcmp(st, 'eq', av, ev, None) if isinstance(av, (Ptr, AddrPtr)) else False
            goal(ctx, st, g, 'frame: %s field at %d has the specified value' % (nm, off), where)
        for s, e in zip(fb.segs, eb.segs):
            if s is e or (s.chain is e.chain and s.w == e.w):
                continue
            w = s.w or e.w or 1
            if s.w and e.w and s.w != e.w:
                w = min(s.w, e.w)
            kind = s.kind if s.w == w else e.kind
            s2 = st.fork()
            n, r = off_divmod(dom, e.size, w, s2)
            if isinstance(n, int) and n <= 4:
                ks = list(range(n))
            else:
                k = INT.var(fresh_name('k'), 0, 1 << 62)
                s2.assume(ilt(k, n))
                ks = [k]
                big = max(s.w or 1, e.w or 1)
                s2 = st.fork()
                nb, rb = off_divmod(dom, e.size, big, s2)
                if w == 1 and big > 1 and rb == 0 and dom is INT:
                    # bytes of wider elements: one goal per position inside the element
                    k = INT.var(fresh_name('k'), 0, 1 << 62)
                    s2.assume(ilt(k, nb))
                    ks = [iadd(imul(big, k), j) for j in range(big)]
            for k in ks:
                av = eng.seg_read(s2, s, off_mul(dom, k, w), w, kind, None, 'frame') if s.w else s.chain.read(k, s2, w, kind)
                ev = eng.seg_read(s2, e, off_mul(dom, k, w), w, kind, None, 'frame') if e.w else e.chain.read(k, s2, w, kind)
                if av is ev:
                    continue
                ctx.oblige(s2, veq(dom, av, ev), 'frame: contents of %s are as specified' % nm, 'frame', where, assume=False)


def is_undef_cell(a):
    v = a[2]
    if isinstance(v, FloatVal):
        v = v.bits
    if isinstance(v, AddrPtr):
        v = v.t
    return isinstance(v, z3.ExprRef) and z3.is_const(v) and v.decl().name().startswith('undef')


# ------------------------------------------------------------------ call sites
def summary(c):
    def apply(eng, st, args, ins):
        ctx = eng.ctx
        wargs = lift_args(eng, st, c, args)
        if c.requires is not None:
            W = SymWorld(eng, st)
            save = CUR[0]
            CUR[0] = W
            try:
                for nm, g in c.requires(W, *wargs):
                    ctx.oblige(st, raw(g), 'precondition of %s: %s' % (c.id, nm), 'precondition', eng.where(ins))
            finally:
                CUR[0] = save
        outs = []

        def go(W):
            r = call_spec(c, W, wargs)
            return r
        for W, r in explore(eng, st, go):
            s = W.st.fork()      # W.st stays as it is for readers that live on
            if r[0] == 'exc':
                b = eng.new_block(s, 24, 'exc', 'undef')
                outs.append((s, ('exc', r[1], Ptr(b.id, 0))))
            else:
                save = CUR[0]
                CUR[0] = W
                try:
                    outs.append((s, ('ret', realize(eng, W, s, r[1], c.ret))))
                finally:
                    CUR[0] = save
        return outs
    return apply


def lift_args(eng, st, c, args):
    tys = c.opts.get('args')
    out = []
    for i, a in enumerate(args):
        if isinstance(a, (bool, z3.BoolRef)):
            out.append(mkb(a))
        elif isinstance(a, (int, z3.ExprRef)):
            ty = tys[i] if tys else 'i32'
            if ty == 'bool':
                out.append(mkb(Not(eng.dom.eq(a, 0))))
                continue
            if ty[0] == 'u':
                a = INT.uns(int(ty[1:]), a, st)
            out.append(mkn(a))
        else:
            out.append(a)
    return out


def realize(eng, W, st, d, ty):
    """a value satisfying the result description, in state st"""
    if d is None:
        return None
    if isinstance(d, (bool, B)):
        return raw(d)
    if isinstance(d, (int, N)):
        return W.lower(d, ty)
    if isinstance(d, F):
        return d.v
    if isinstance(d, (Ptr, AddrPtr, FloatVal)):
        return d
    if isinstance(d, NewStr):
        n = raw(d.length)
        b = eng.new_block(st, 24, 'heap', 'zero', 'string')
        data = eng.new_block(st, off_mul(eng.dom, iadd(n, 1), 4), 'heap', 'zero', 'string data')
        ch = W.closed(d.char)
        data.segs.append(Seg(0, data.size, 4, 'i', CopyC(ZeroC(), 0, n, FnC(lambda k: raw(ch(mkn(k)))), 0)))
        cls = 'String'
        b.cells[0] = (8, 'p', Ptr(eng.ctx.glob_id('_ZTVN13DotnetLibrary6StringE'), 16))
        b.cells[8] = (8, 'p', Ptr(data.id, 0))
        b.cells[16] = (4, 'i', n)
        return Ptr(b.id, 0)
    if isinstance(d, NewObj):
        sz = max(o + TYSIZE[t] for o, (t, v) in d.cells.items())
        b = eng.new_block(st, sz, 'heap', 'undef', d.cls)
        b.cells[0] = (8, 'p', Ptr(eng.ctx.glob_id('_ZTVN13DotnetLibrary%d%sE' % (len(d.cls), d.cls)), 16))
        for o, (t, v) in d.cells.items():
            kind = 'f' if t[0] == 'f' else 'p' if t == 'ptr' else 'i'
            b.cells[o] = (TYSIZE[t], kind, realize(eng, W, st, v, t))
        return Ptr(b.id, 0)
    raise Unsupported('realize %r' % (d,))
