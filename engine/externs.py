"""Assumed contracts of the functions outside the library (C runtime, allocator entry points)."""
import re
import z3
from .terms import *
from .mem import *
from .mem import Unsupported
from .prover import Fact, forall
from . import terms as T

table = {}
patterns = []
USED = set()


def ext(*names):
    def deco(f):
        def g(eng, st, args, ins):
            USED.add(names[0])
            return f(eng, st, args, ins)
        for n in names:
            table[n] = g
        return f
    return deco


def pat(rx):
    def deco(f):
        patterns.append((re.compile(rx), f))
        return f
    return deco


def ret(st, v=None):
    return [(st, ('ret', v))]


@ext('_Znwm', '_Znam')
def op_new(eng, st, args, ins):
    n = args[0]
    dom = eng.dom
    if not isinstance(n, int):
        eng.ctx.oblige(st, dom.le(0, n), 'allocation size is not negative', 'memory', eng.where(ins))
    elif n < 0:
        eng.ctx.oblige(st, False, 'allocation size is not negative', 'memory', eng.where(ins))
        return []
    return ret(st, eng.heap_alloc(st, n))


@ext('_ZdlPv', '_ZdaPv', '_ZdlPvm', '_ZdaPvm')
def op_delete(eng, st, args, ins):
    eng.free(st, args[0], ins)
    return ret(st)


@ext('malloc')
def c_malloc(eng, st, args, ins):
    if getattr(eng.ctx, 'malloc_fails', False):
        f = st.fork()
        f.ghost['malloc failed'] = True
        return ret(f, NULL) + malloc_ok(eng, st, args)
    return malloc_ok(eng, st, args)


def malloc_ok(eng, st, args):
    p = eng.heap_alloc(st, args[0])
    b = st.wblk(p.b)
    b.default = 'undef'
    for i, s in enumerate(b.segs):
        b.segs[i] = Seg(s.start, s.size, 1, 'i', BaseC(eng.dom, 1, 'i', 'mal'))
    return ret(st, p)


@ext('free')
def c_free(eng, st, args, ins):
    eng.free(st, args[0], ins, 'free')
    return ret(st)


@ext('llvm.memset.p0.i64', 'memset')
def m_set(eng, st, args, ins):
    eng.memset(st, args[0], args[1], args[2], ins)
    return ret(st, args[0])


@ext('llvm.memcpy.p0.p0.i64', 'memcpy')
def m_cpy(eng, st, args, ins):
    eng.memcpy(st, args[0], args[1], args[2], ins, False)
    return ret(st, args[0])


@ext('llvm.memmove.p0.p0.i64', 'memmove')
def m_move(eng, st, args, ins):
    eng.memcpy(st, args[0], args[1], args[2], ins, True)
    return ret(st, args[0])


def wide_size(eng, n):
    return off_mul(eng.dom, n, 4)


@ext('wmemcpy')
def w_cpy(eng, st, args, ins):
    eng.memcpy(st, args[0], args[1], wide_size(eng, args[2]), ins, False)
    return ret(st, args[0])


@ext('wmemmove')
def w_move(eng, st, args, ins):
    eng.memcpy(st, args[0], args[1], wide_size(eng, args[2]), ins, True)
    return ret(st, args[0])


@ext('wmemset')
def w_set(eng, st, args, ins):
    if eng.dom is BV:
        raise Unsupported('wmemset in BV mode')
    c, n = args[1], wide_size(eng, args[2])
    if isinstance(n, int) and n == 0:
        return ret(st, args[0])
    eng.ctx.oblige(st, INT.le(0, n), 'wmemset size is not negative', 'memory', eng.where(ins))
    b = eng.new_block(st, n, 'heap', 'zero', 'fill')
    b.segs.append(Seg(0, n, 4, 'i', CopyC(ZeroC(), 0, args[2], FnC(lambda k: c), 0)))
    eng.memcpy(st, args[0], Ptr(b.id, 0), n, ins, False)
    st.mem.pop(b.id, None)
    return ret(st, args[0])


@ext('calloc')
def c_calloc(eng, st, args, ins):
    if eng.dom is BV:
        raise Unsupported('calloc in BV mode')
    n = imul(args[0], args[1])
    eng.ctx.oblige(st, And(INT.le(0, args[0]), INT.le(0, args[1]), INT.le(n, T.smax(64))), 'allocation size is not negative', 'memory', eng.where(ins))
    out = []
    if getattr(eng.ctx, 'malloc_fails', False):
        f = st.fork()
        f.ghost['malloc failed'] = True
        out = ret(f, NULL)
    return out + ret(st, eng.heap_alloc(st, n))


@ext('__cxa_allocate_exception')
def alloc_exc(eng, st, args, ins):
    b = eng.new_block(st, args[0], 'exc', 'zero')
    return ret(st, Ptr(b.id, 0))


@ext('__cxa_free_exception')
def free_exc(eng, st, args, ins):
    return ret(st)


def exc_name(eng, ti):
    n = eng.ctx.gnames[ti.b]
    m = re.match(r'_ZTIPN13DotnetLibrary(\d+)(\w+)E$', n)
    if m:
        return m.group(2)
    return n


@ext('__cxa_throw')
def c_throw(eng, st, args, ins):
    return [(st, ('exc', exc_name(eng, args[1]), args[0]))]


@pat(r'_ZN13DotnetLibrary\d+\w*ExceptionC[12]E')
def exc_ctor(eng, st, args, ins, name):
    # constructing an exception object only touches the new object itself (checked separately by
    # contracts/p22_exception.py, which runs the constructors through the verifier)
    if getattr(eng.ctx, 'check_exceptions', False):
        f = eng.mod.fn(name)
        return eng.exec_function(st, f, args)
    return ret(st)


@ext('__cxa_begin_catch')
def begin_catch(eng, st, args, ins):
    return ret(st, args[0])


@ext('__cxa_end_catch')
def end_catch(eng, st, args, ins):
    st.exc = None
    return ret(st)


@ext('_ZSt9terminatev', '__clang_call_terminate', 'llvm.trap', '__cxa_pure_virtual')
def terminate(eng, st, args, ins):
    eng.ctx.oblige(st, False, 'the program is not terminated', 'control', eng.where(ins))
    return []


@ext('llvm.eh.typeid.for')
def typeid(eng, st, args, ins):
    return ret(st, args[0].b + 1000)


@ext('__cxa_atexit')
def atexit(eng, st, args, ins):
    return ret(st, 0)


@ext('llvm.abs.i32')
def abs32(eng, st, args, ins):
    d = eng.dom
    x = args[0]
    return ret(st, ite_val(d, d.cmp('slt', 32, x, 0, st), d.sub(32, 0, x, st), x, 32))


@ext('llvm.abs.i64')
def abs64(eng, st, args, ins):
    d = eng.dom
    x = args[0]
    return ret(st, ite_val(d, d.cmp('slt', 64, x, 0, st), d.sub(64, 0, x, st), x, 64))


@ext('llvm.umul.with.overflow.i64')
def umul(eng, st, args, ins):
    d = eng.dom
    a, b = args
    if d is INT:
        p = imul(d.uns(64, a, st), d.uns(64, b, st))
        ov = Not(ile(p, (1 << 64) - 1))
        r = d.wrap(64, p, st)
        return ret(st, (r, st.simp(ov)))
    if isinstance(a, int) and isinstance(b, int):
        p = (a & T.smax(65)) * (b & T.smax(65))
        return ret(st, (T.pywrap(64, p), p >> 64 != 0))
    A, B = d.bv(64, a), d.bv(64, b)
    return ret(st, (d.S(A * B), Not(d.SB(z3.BVMulNoOverflow(A, B, False)))))


def overflow_op(name, op, signed, w):
    def f(eng, st, args, ins):
        USED.add(name)
        d = eng.dom
        if d is not INT:
            raise Unsupported(name + ' in BV mode')
        a, b = args if signed else [d.uns(w, x, st) for x in args]
        p = op(a, b)
        lo, hi = (T.smin(w), T.smax(w)) if signed else (0, (1 << w) - 1)
        return ret(st, (d.wrap(w, p, st), st.simp(Not(And(ile(lo, p), ile(p, hi))))))
    table.setdefault(name, f)


for _w in (32, 64):
    for _n, _op in (('add', iadd), ('sub', isub), ('mul', imul)):
        overflow_op('llvm.s%s.with.overflow.i%d' % (_n, _w), _op, True, _w)
        overflow_op('llvm.u%s.with.overflow.i%d' % (_n, _w), _op, False, _w)


# ------------------------------------------------------------------ wide strings
def first_index(eng, st, lo, hi, pred, name='idx'):
    """forks: [(state, r)] for the first k in [lo,hi) with pred(k), [(state, None)] if there is none"""
    ctx = eng.ctx
    out = []
    r = INT.var(fresh_name(name), -INF, INF)
    s1 = st.fork()
    if s1.assume(And(ile(lo, r), ilt(r, hi))) and s1.assume(pred(r)):
        s1.facts.append(forall(lo, r, lambda k: Not(pred(k)), name))
        if ctx.feasible(s1):
            out.append((s1, r))
    s2 = st
    f = forall(lo, hi, lambda k: Not(pred(k)), name)
    s2.facts.append(f)
    # instantiate at the first element so that trivial cases are decided
    g = Implies(ilt(lo, hi), Not(pred(lo)))
    if s2.assume(g):
        if ctx.feasible(s2):
            out.append((s2, None))
    return out


def wide_view(eng, st, p, ins, what):
    """-> (reader k -> element at p+k, number of elements to the end of the object)"""
    p = eng.resolve_ptr(st, p, ins, what)
    b = eng.live_blk(st, p, ins, what)
    if not b.segs:
        b = eng.promote(st, p.b, 4, 'i')
    si = eng.find_seg(b, p.off)
    if si is None:
        raise Unsupported(what + ' on a record')
    s = b.segs[si]
    if s.w is None:
        b = eng.set_width(st, p.b, si, 4, 'i')
        s = b.segs[si]
    if s.w != 4:
        raise Unsupported(what + ' on a non wide-character array')
    q, r = off_divmod(eng.dom, off_sub(eng.dom, p.off, s.start), 4, st)
    if not (isinstance(r, int) and r == 0) and not eng.ctx.prove_quick(st, eng.dom.eq(r, 0)):
        raise Unsupported('misaligned wide string')
    total, _ = off_divmod(eng.dom, s.size, 4, st)
    ch, stt = s.chain, eng.neutral()      # the reader outlives this state: simplify without its assumptions
    return (lambda k: ch.read(off_add(eng.dom, q, k), stt, 4, 'i')), off_sub(eng.dom, total, q), b, q


def terminator(eng, st, read, n, b, q, ins, what):
    """obligation: the wide string is terminated inside its object"""
    cands = [isub(n, 1)]
    for g in st.ghost.get(('nul', b.id), ()):
        cands.append(isub(g, q))
    goals = [And(ile(0, c), ilt(c, n), INT.eq(read(c), 0)) for c in cands]
    g = Or(*goals)
    for x in goals:
        if eng.ctx.prove_quick(st, x):
            g = x
            break
    eng.ctx.oblige(st, g, what + ': string is terminated inside its object', 'memory', eng.where(ins))


@ext('wcslen')
def wcslen(eng, st, args, ins):
    if eng.dom is BV:
        raise Unsupported('wcslen in BV mode')
    read, n, b, q = wide_view(eng, st, args[0], ins, 'wcslen')
    if isinstance(n, int):
        # concrete table
        vals = [read(k) for k in range(n)] if n < 200 else [None]
        if all(isinstance(v, int) for v in vals) and 0 in vals:
            return ret(st, vals.index(0))
    terminator(eng, st, read, n, b, q, ins, 'wcslen')
    return [(s, ('ret', r)) for s, r in first_index(eng, st, 0, n, lambda k: INT.eq(read(k), 0), 'wcslen') if r is not None]


@ext('wcscmp')
def wcscmp(eng, st, args, ins):
    if eng.dom is BV:
        raise Unsupported('wcscmp in BV mode')
    ra, na, ba, qa = wide_view(eng, st, args[0], ins, 'wcscmp')
    rb, nb, bb, qb = wide_view(eng, st, args[1], ins, 'wcscmp')
    terminator(eng, st, ra, na, ba, qa, ins, 'wcscmp')
    terminator(eng, st, rb, nb, bb, qb, ins, 'wcscmp')
    n = INT.ite(st.simp(ile(na, nb)), na, nb)
    out = []
    for s, r in first_index(eng, st, 0, n, lambda k: Or(Not(INT.eq(ra(k), rb(k))), INT.eq(ra(k), 0)), 'wcscmp'):
        if r is None:
            continue
        a, b = ra(r), rb(r)
        v = INT.ite(ilt(a, b), -1, INT.ite(INT.eq(a, b), 0, 1))
        out.append((s, ('ret', v)))
    return out


@ext('wcsncmp')
def wcsncmp(eng, st, args, ins):
    if eng.dom is BV:
        raise Unsupported('wcsncmp in BV mode')
    ra, na, ba, qa = wide_view(eng, st, args[0], ins, 'wcsncmp')
    rb, nb, bb, qb = wide_view(eng, st, args[1], ins, 'wcsncmp')
    m = INT.uns(64, args[2], st)
    out = []
    # no more characters are read than the shorter of the bound and the string, so each is bounded or terminated
    for read, n, b, q in ((ra, na, ba, qa), (rb, nb, bb, qb)):
        if not eng.ctx.prove_quick(st, ile(m, n)):
            terminator(eng, st, read, n, b, q, ins, 'wcsncmp')
    for s, r in first_index(eng, st, 0, m, lambda k: Or(Not(INT.eq(ra(k), rb(k))), INT.eq(ra(k), 0)), 'wcsncmp'):
        if r is None:
            out.append((s, ('ret', 0)))
        else:
            a, b = ra(r), rb(r)
            out.append((s, ('ret', INT.ite(ilt(a, b), -1, INT.ite(INT.eq(a, b), 0, 1)))))
    return out


@ext('wmemcmp')
def wmemcmp(eng, st, args, ins):
    if eng.dom is BV:
        raise Unsupported('wmemcmp in BV mode')
    n = args[2]
    if isinstance(n, int) and n == 0:
        return ret(st, 0)
    ra, na, ba, qa = wide_view(eng, st, args[0], ins, 'wmemcmp')
    rb, nb, bb, qb = wide_view(eng, st, args[1], ins, 'wmemcmp')
    for x in (na, nb):
        eng.ctx.oblige(st, And(ile(0, n), ile(n, x)), 'wmemcmp stays inside the object', 'memory', eng.where(ins))
    out = []
    for s, r in first_index(eng, st, 0, n, lambda k: Not(INT.eq(ra(k), rb(k))), 'wmemcmp'):
        out.append((s, ('ret', 0 if r is None else INT.ite(ilt(ra(r), rb(r)), -1, 1))))
    return out


def find_wide(what, counted):
    def f(eng, st, args, ins):
        if eng.dom is BV:
            raise Unsupported(what + ' in BV mode')
        c = args[1]
        if counted and isinstance(args[2], int) and args[2] == 0:
            return ret(st, NULL)
        p = eng.resolve_ptr(st, args[0], ins, what)
        read, n, b, q = wide_view(eng, st, args[0], ins, what)
        out = []
        if counted:
            m = args[2]
            eng.ctx.oblige(st, And(ile(0, m), ile(m, n)), what + ' stays inside the object', 'memory', eng.where(ins))
            stop = lambda k: INT.eq(read(k), c)
        else:
            m = n
            terminator(eng, st, read, n, b, q, ins, what)
            stop = lambda k: Or(INT.eq(read(k), c), INT.eq(read(k), 0))
        for s, r in first_index(eng, st, 0, m, stop, what):
            if r is None:
                if counted:
                    out.append((s, ('ret', NULL)))
                continue
            here = Ptr(p.b, off_add(eng.dom, p.off, imul(4, r)))
            if counted:
                out.append((s, ('ret', here)))
                continue
            for v, hit in ((here, INT.eq(read(r), c)), (NULL, Not(INT.eq(read(r), c)))):
                t = s.fork()
                if t.assume(hit) and eng.ctx.feasible(t):
                    out.append((t, ('ret', v)))
        return out
    return f


ext('wcschr')(find_wide('wcschr', False))
ext('wmemchr')(find_wide('wmemchr', True))


def uf_int(name, lo=-(1 << 31), hi=(1 << 31) - 1):
    RANGE[name] = (lo, hi)
    return z3.Function(name, z3.IntSort(), z3.IntSort())


def char_fn(name):
    def f(eng, st, args, ins):
        USED.add(name)
        x = args[0]
        if eng.dom is BV:
            fn = z3.Function(name, z3.BitVecSort(32), z3.BitVecSort(32))
            return ret(st, keep(fn(eng.dom.bv(32, x))))
        return ret(st, keep(uf_int(name)(zi(x))))
    table[name] = f


for _n in ('iswcntrl', 'iswblank', 'iswgraph', 'iswprint', 'iswxdigit', 'iswalpha', 'iswlower', 'iswpunct', 'iswspace', 'iswupper', 'towlower', 'towupper'):
    char_fn(_n)


@ext('iswdigit')
def iswdigit(eng, st, args, ins):
    x = args[0]
    d = eng.dom
    c = And(d.le(48, x), d.le(x, 57))
    return ret(st, ite_val(d, c, 1, 0, 32))


@ext('iswalnum')
def iswalnum(eng, st, args, ins):
    # C11 7.30.2.1.1: the characters for which iswalpha or iswdigit is true
    a = table['iswalpha'](eng, st, args, ins)[0][1][1]
    d = eng.dom
    c = Or(Not(d.eq(a, 0)), And(d.le(48, args[0]), d.le(args[0], 57)))
    return ret(st, ite_val(d, c, 1, 0, 32))


# ------------------------------------------------------------------ the clock and the time zone
TM = [('sec', 0, 0, 59), ('min', 4, 0, 59), ('hour', 8, 0, 23), ('mday', 12, 1, 31), ('mon', 16, 0, 11), ('year', 20, 69, 8099), ('wday', 24, 0, 6), ('yday', 28, 0, 365)]


def civil_field(kind, field, t):
    """a field of the C library's broken-down time of the moment t"""
    for f, _, lo, hi in TM:
        if f == field:
            return keep(uf_int('libc.%s.%s' % (kind, f), lo, hi)(zi(t)))


def clock_reading(n):
    """the n-th reading of the system clock: seconds since 1970, nanoseconds"""
    return INT.var('clock.sec%d' % n, 0, 253402300799), INT.var('clock.nsec%d' % n, 0, 999999999)


def dst_of(fields, isdst):
    name = 'libc.mktime.isdst'
    RANGE[name] = (-1, 1)
    return keep(z3.Function(name, *([z3.IntSort()] * 8))(*[zi(x) for x in list(fields) + [isdst]]))


def read_clock(st):
    n = sum(1 for k in st.ghost if k[0] == 'clock')
    st.ghost[('clock', n)] = ()
    USED.add('the clock stands between 1970 and 9999')
    return clock_reading(n)


@ext('tzset')
def c_tzset(eng, st, args, ins):
    return ret(st)


@ext('time')
def c_time(eng, st, args, ins):
    t, _ = read_clock(st)
    if args[0].b != 0:
        eng.store(st, args[0], ('i', 64), t, ins, 'time')
    return ret(st, t)


@ext('clock_gettime')
def c_clock_gettime(eng, st, args, ins):
    if args[0] != 0:
        raise Unsupported('another clock than CLOCK_REALTIME')
    t, ns = read_clock(st)
    eng.store(st, args[1], ('i', 64), t, ins, 'clock_gettime')
    eng.store(st, Ptr(args[1].b, off_add(INT, args[1].off, 8)), ('i', 64), ns, ins, 'clock_gettime')
    return ret(st, 0)


def broken_down(eng, st, kind, tp, to, ins):
    USED.add('broken-down times: fields in range, no leap seconds; local and universal civil days differ by at most one')
    t = eng.load(st, tp, ('i', 64), ins, kind)
    at = lambda o: Ptr(to.b, off_add(INT, to.off, o))
    for f, o, lo, hi in TM:
        eng.store(st, at(o), ('i', 32), civil_field(kind, f, t), ins, kind)
    eng.store(st, at(32), ('i', 32), INT.var(fresh_name('isdst'), -1, 1) if kind == 'localtime' else 0, ins, kind)
    ly, gy, ld, gd = (civil_field(k, f, t) for f in ('year', 'yday') for k in ('localtime', 'gmtime'))
    d = isub(ld, gd)
    st.define(Or(And(INT.eq(ly, gy), ile(-1, d), ile(d, 1)), INT.eq(isub(ly, gy), 1), INT.eq(isub(ly, gy), -1)))


def civil_ext(kind):
    def plain(eng, st, args, ins):
        if ('libc.tm',) not in st.ghost:             # gmtime and localtime share one result
            st.ghost[('libc.tm',)] = (eng.new_block(st, 56, 'heap', 'zero', 'libc.tm').id,)
        b = st.ghost[('libc.tm',)][0]
        broken_down(eng, st, kind, args[0], Ptr(b, 0), ins)
        return ret(st, Ptr(b, 0))

    def reentrant(eng, st, args, ins):
        broken_down(eng, st, kind, args[0], args[1], ins)
        return ret(st, args[1])
    ext(kind)(plain)
    ext(kind + '_r')(reentrant)


civil_ext('gmtime')
civil_ext('localtime')


@ext('mktime')
def c_mktime(eng, st, args, ins):
    USED.add('mktime')
    at = lambda o: Ptr(args[0].b, off_add(INT, args[0].off, o))
    v = {f: eng.load(st, at(o), ('i', 32), ins, 'mktime') for f, o, lo, hi in TM if f not in ('wday', 'yday')}
    isdst = eng.load(st, at(32), ('i', 32), ins, 'mktime')
    r = dst_of([v[f] for f in ('year', 'mon', 'mday', 'hour', 'min', 'sec')], isdst)
    for f, o, lo, hi in TM:
        eng.store(st, at(o), ('i', 32), INT.var(fresh_name('tm'), -(1 << 31), (1 << 31) - 1), ins, 'mktime')
    eng.store(st, at(32), ('i', 32), r, ins, 'mktime')
    return ret(st, INT.var(fresh_name('mktime'), -(1 << 63), (1 << 63) - 1))


# ------------------------------------------------------------------ floating point
def fp_uf(name, nargs, w=64):
    def f(eng, st, args, ins):
        USED.add(name)
        s = z3.Float64() if w == 64 else z3.Float32()
        fn = z3.Function(name, *([s] * nargs + [s]))
        return ret(st, FloatVal(w, fp=keep(fn(*[a.fp for a in args[:nargs]]))))
    table[name] = f


for _n in ('acos', 'acosh', 'asin', 'asinh', 'atan', 'atanh', 'cbrt', 'cos', 'cosh', 'exp', 'logb', 'log', 'log10', 'log2', 'sin', 'sinh',
           'tan', 'tanh'):
    fp_uf(_n, 1)
for _n in ('atan2', 'pow', 'fmod'):
    fp_uf(_n, 2)
fp_uf('fmodf', 2, 32)


def fp_exact(name, fn):
    def f(eng, st, args, ins):
        USED.add(name)
        x = args[0]
        return ret(st, FloatVal(x.w, fp=keep(z3.simplify(fn(x.fp)))))
    table[name] = f


for _n, _rm in (('ceil', z3.RTP()), ('floor', z3.RTN()), ('trunc', z3.RTZ())):
    fp_exact('llvm.%s.f64' % _n, lambda x, rm=_rm: z3.fpRoundToIntegral(rm, x))
    fp_exact('llvm.%s.f32' % _n, lambda x, rm=_rm: z3.fpRoundToIntegral(rm, x))
    fp_exact(_n, lambda x, rm=_rm: z3.fpRoundToIntegral(rm, x))
for _n in ('llvm.round.f64', 'llvm.round.f32', 'round', 'roundf'):
    fp_exact(_n, lambda x: z3.fpRoundToIntegral(z3.RNA(), x))
for _n, _rm in (('ceilf', z3.RTP()), ('floorf', z3.RTN()), ('truncf', z3.RTZ())):
    fp_exact(_n, lambda x, rm=_rm: z3.fpRoundToIntegral(rm, x))
for _n in ('llvm.rint.f64', 'llvm.nearbyint.f64', 'rint', 'nearbyint', 'llvm.roundeven.f64'):
    fp_exact(_n, lambda x: z3.fpRoundToIntegral(z3.RNE(), x))
fp_exact('sqrt', lambda x: z3.fpSqrt(z3.RNE(), x))
fp_exact('llvm.sqrt.f64', lambda x: z3.fpSqrt(z3.RNE(), x))


def _fabs(eng, st, args, ins):
    x = args[0]
    USED.add('fabs')
    if x.has_bits():
        return ret(st, FloatVal(x.w, bits=keep(z3.simplify(x.bits & z3.BitVecVal((1 << (x.w - 1)) - 1, x.w)))))
    return ret(st, FloatVal(x.w, fp=keep(z3.simplify(z3.fpAbs(x.fp)))))


for _n in ('llvm.fabs.f64', 'llvm.fabs.f32', 'fabs', 'fabsf'):
    table[_n] = _fabs


@ext('modf')
def modf(eng, st, args, ins):
    USED.add('modf')
    x, p = args
    t = FloatVal(64, fp=keep(z3.simplify(z3.fpRoundToIntegral(z3.RTZ(), x.fp))))
    eng.store(st, p, ('f64',), t, ins, 'modf')
    d = z3.fpSub(z3.RNE(), x.fp, t.fp)
    z = z3.If(z3.fpIsNegative(x.fp), z3.fpMinusZero(z3.Float64()), z3.fpPlusZero(z3.Float64()))
    # the fraction carries the sign of the argument
    f = z3.If(z3.fpIsNaN(x.fp), x.fp, z3.If(z3.Or(z3.fpIsInf(x.fp), z3.fpIsZero(d)), z, d))
    return ret(st, FloatVal(64, fp=keep(z3.simplify(f))))


@ext('ilogb')
def ilogb(eng, st, args, ins):
    USED.add('ilogb')
    x = args[0]
    if eng.dom is not BV:
        n = 'ilogb'
        RANGE[n] = (smin(32), smax(32))
        return ret(st, keep(z3.Function(n, z3.Float64(), z3.IntSort())(x.fp)))
    b = x.bits & z3.BitVecVal((1 << 63) - 1, 64)
    e = z3.LShR(b, 52)
    c = lambda v: z3.BitVecVal(v, 32)
    r = c(-1023)
    for i in range(51, -1, -1):
        r = z3.If(z3.ULE(b, z3.BitVecVal((1 << (i + 1)) - 1, 64)), c(i - 1074), r)
    r = z3.If(e == 0, r, z3.Extract(31, 0, e) - 1023)
    r = z3.If(b == 0, c(-2 ** 31), z3.If(z3.ULT(b, z3.BitVecVal(0x7ff0000000000000, 64)), r, z3.If(b == 0x7ff0000000000000, c(2 ** 31 - 1), c(-2 ** 31))))
    return ret(st, keep(z3.simplify(r)))


@ext('llvm.copysign.f64', 'copysign', 'llvm.copysign.f32')
def copysign(eng, st, args, ins):
    x, y = args
    m = 1 << (x.w - 1)
    return ret(st, FloatVal(x.w, bits=keep(z3.simplify((x.bits & z3.BitVecVal(m - 1, x.w)) | (y.bits & z3.BitVecVal(m, x.w))))))


@ext('remainder')
def remainder(eng, st, args, ins):
    s = z3.Float64()
    fn = z3.Function('remainder', s, s, s)
    return ret(st, FloatVal(64, fp=keep(fn(args[0].fp, args[1].fp))))


@ext('llvm.fmuladd.f64')
def fmuladd(eng, st, args, ins):
    a, b, c = [x.fp for x in args]
    return ret(st, FloatVal(64, fp=keep(z3.fpAdd(z3.RNE(), z3.fpMul(z3.RNE(), a, b), c))))


@ext('llvm.fma.f64', 'fma')
def fma(eng, st, args, ins):
    a, b, c = [x.fp for x in args]
    return ret(st, FloatVal(64, fp=keep(z3.fpFMA(z3.RNE(), a, b, c))))


@ext('scalbn', 'ldexp')
def scalbn(eng, st, args, ins):
    s = z3.Float64()
    if eng.dom is BV:
        fn = z3.Function('scalbn', s, z3.BitVecSort(32), s)
        return ret(st, FloatVal(64, fp=keep(fn(args[0].fp, eng.dom.bv(32, args[1])))))
    fn = z3.Function('scalbn_i', s, z3.IntSort(), s)
    return ret(st, FloatVal(64, fp=keep(fn(args[0].fp, zi(args[1])))))


@ext('memcmp')
def memcmp(eng, st, args, ins):
    if eng.dom is BV:
        raise Unsupported('memcmp in BV mode')
    a, b, n = args
    def view(p, what):
        p = eng.resolve_ptr(st, p, ins, what)
        bb = eng.live_blk(st, p, ins, what)
        si, rel = eng.seg_access(st, bb, p.off, n, ins, what)
        if si is None:
            raise Unsupported('memcmp on a record')
        return bb.segs[si], rel
    for p in (a, b):
        if isinstance(p, Ptr) and p.b == 0:
            eng.ctx.oblige(st, INT.eq(n, 0), 'memcmp: null pointer is not dereferenced', 'memory', eng.where(ins))
            return ret(st, 0)
    sa, oa = view(a, 'memcmp')
    sb, ob = view(b, 'memcmp')
    w = sa.w or sb.w or 1
    wb_ = sb.w or w
    if w != wb_:
        w = 1
    qs = []
    for x in (oa, ob, n):
        q, r = INT.fdivmod(x, w, st)
        if not (isinstance(r, int) and r == 0) and not eng.ctx.prove_quick(st, INT.eq(r, 0)):
            raise Unsupported('memcmp alignment')
        qs.append(q)
    ca = sa.chain if (sa.w or w) == w else PunC(sa.chain, sa.w, w)
    cb = sb.chain if (sb.w or w) == w else PunC(sb.chain, sb.w, w)
    out = []
    nt = eng.neutral()
    f = lambda k: ca.read(iadd(qs[0], k), nt, w, 'i')
    g = lambda k: cb.read(iadd(qs[1], k), nt, w, 'i')
    for s, r in first_index(eng, st, 0, qs[2], lambda k: Not(INT.eq(f(k), g(k))), 'memcmp'):
        if r is None:
            out.append((s, ('ret', 0)))
        else:
            v = INT.var(fresh_name('memcmp'), T.smin(32), T.smax(32))
            s.assume(Not(INT.eq(v, 0)))
            if w == 1:
                s.assume(Iff(ilt(v, 0), ilt(INT.uns(8, f(r), s), INT.uns(8, g(r), s))))
            out.append((s, ('ret', v)))
    return out


# ------------------------------------------------------------------ substring occurrence (defined predicate)
_occ = {}
_named = [0]


def named(base, *ts):
    """a new function name that counts as old as the newest symbol of the terms that define it"""
    from .prover import max_serial
    _named[0] += 1
    n = max([0] + [max_serial(t) for t in ts if not isinstance(t, (int, bool))])
    return '%s%d!%d' % (base, _named[0], n)


def occurs(st, ra, rb, m):
    """predicate of an index x: for all j in [0,m): ra(x+j) == rb(j); the definition is added to the state"""
    if isinstance(m, int) and m <= 3:
        return lambda x: And(*[INT.eq(ra(iadd(x, j)), rb(j)) for j in range(m)])
    x, y = keep(z3.Int('probe!oa')), keep(z3.Int('probe!ob'))
    pa, pb = ra(x), rb(y)
    key = tuple(t if isinstance(t, int) else t.get_id() for t in (pa, pb, m))
    d = _occ.get(key)
    if d is None:
        keep(pa) if not isinstance(pa, int) else None
        keep(pb) if not isinstance(pb, int) else None
        n = named('occurs', pa, pb, m)
        P = z3.Function(n, z3.IntSort(), z3.BoolSort())
        w = z3.Function(n.replace('occurs', 'differs'), z3.IntSort(), z3.IntSort())
        KEEP.extend([P, w])

        def inst(k):
            pk = keep(P(zi(k)))
            wk = keep(w(zi(k)))
            neg = Or(pk, And(ile(0, wk), ilt(wk, m), Not(INT.eq(ra(iadd(k, wk)), rb(wk)))))
            return neg, [forall(0, m, lambda j: Implies(pk, INT.eq(ra(iadd(k, j)), rb(j))), 'occurs')]
        d = (P, Fact([('occurs*', lambda ch: z3u(ch[0]))], inst, 'occurs'))
        _occ[key] = d
    P, f = d
    if not any(g is f for g in st.facts):
        st.facts.append(f)
    return lambda k: keep(P(zi(k)))


def z3u(t):
    from .prover import unz
    return unz(t)


def string_length(eng, st, read, n, b, q, ins, what):
    """canonical length term of a terminated wide string, when the state determines one"""
    for c in [isub(g, q) for g in st.ghost.get(('nul', b.id), ())] + [isub(n, 1)]:
        if not eng.ctx.prove_quick(st, And(ile(0, c), ilt(c, n), INT.eq(read(c), 0))):
            continue
        k = INT.var(fresh_name('k'), 0, INF)
        s2 = st.fork()
        if not s2.assume(ilt(k, c)) or eng.ctx.prove_quick(s2, Not(INT.eq(read(k), 0))):
            return c
    return None


@ext('wcsstr')
def wcsstr(eng, st, args, ins):
    if eng.dom is BV:
        raise Unsupported('wcsstr in BV mode')
    p = eng.resolve_ptr(st, args[0], ins, 'wcsstr')
    ra, na, ba, qa = wide_view(eng, st, args[0], ins, 'wcsstr')
    rb, nb, bb, qb = wide_view(eng, st, args[1], ins, 'wcsstr')
    terminator(eng, st, ra, na, ba, qa, ins, 'wcsstr')
    terminator(eng, st, rb, nb, bb, qb, ins, 'wcsstr')
    la = string_length(eng, st, ra, na, ba, qa, ins, 'wcsstr')
    lb = string_length(eng, st, rb, nb, bb, qb, ins, 'wcsstr')
    if la is None or lb is None:
        raise Unsupported('wcsstr on a string whose length is not determined')
    P = occurs(st, lambda k: ra(isub(k, qa)), rb, lb)
    out = []
    for s, r in first_index(eng, st, 0, iadd(isub(la, lb), 1), lambda k: P(iadd(qa, k)), 'wcsstr'):
        out.append((s, ('ret', NULL if r is None else Ptr(p.b, off_add(eng.dom, p.off, imul(4, r))))))
    return out


def runvalue(st, rd):
    """V(k): the number denoted by the maximal run of decimal digits that ends before position k (0 without one).
    Defined by recursion on k; that it is not negative is immediate from the definition."""
    x = keep(z3.Int('probe!oa'))
    key = ('runvalue', rd(x).get_id())
    d = _occ.get(key)
    if d is None:
        n = named('runvalue', rd(x))
        V = z3.Function(n, z3.IntSort(), z3.IntSort())
        KEEP.append(V)
        v = lambda k: keep(V(zi(k)))

        def define(k):
            p = isub(k, 1)
            c = rd(p)
            dg = And(ilt(0, k), ile(48, c), ile(c, 57))
            return And(Implies(dg, INT.eq(v(k), iadd(imul(10, v(p)), isub(c, 48)))), Implies(Not(dg), INT.eq(v(k), 0)), ile(0, v(k)), ile(0, v(p))), []
        f = Fact([(n, lambda ch: z3u(ch[0]))], define, 'runvalue')
        f.rec = True
        d = (v, f)
        _occ[key] = d
    if not any(f is d[1] for f in st.facts):
        st.facts.append(d[1])
    return d[0]


def greedy(eng, st, ra, rb, m, E, step=None):
    """C(p): number of non-overlapping occurrences found scanning from p (matches start before E); m >= 1.
    With `step`, the sum of `step` over those matches.  Defined by recursion; the lemma is proved by induction on E - p."""
    ctx = eng.ctx
    P = occurs(st, ra, rb, m)
    x, y = keep(z3.Int('probe!oa')), keep(z3.Int('probe!ob'))
    key = ('greedy',) + tuple(t if isinstance(t, int) else t.get_id() for t in (ra(x), rb(y), m, E, step if step is not None else -7))
    d = _occ.get(key)
    if d is None:
        n = named('greedy', ra(x), rb(y), m, E, step if step is not None else 0, P(zi(0)))
        C = z3.Function(n, z3.IntSort(), z3.IntSort())
        w = z3.Function(n.replace('greedy', 'gwit'), z3.IntSort(), z3.IntSort())
        KEEP.extend([C, w])
        c = lambda p: keep(C(zi(p)))
        trig = [(n, lambda ch: z3u(ch[0]))]
        s = 1 if step is None else step

        def define(p):
            return And(Implies(ile(E, p), INT.eq(c(p), 0)),
                       Implies(And(ilt(p, E), P(p)), INT.eq(c(p), iadd(s, c(iadd(p, m))))),
                       Implies(And(ilt(p, E), Not(P(p))), INT.eq(c(p), c(iadd(p, 1))))), []

        def lemma(p):
            if step is not None:
                return And(Implies(ile(0, step), ile(0, c(p))), Implies(ile(step, 0), ile(c(p), 0))), []
            wp = keep(w(zi(p)))
            return And(ile(0, c(p)), Or(ile(c(p), isub(E, p)), INT.eq(c(p), 0)), Implies(ilt(0, c(p)), And(ile(p, wp), ilt(wp, E), P(wp)))), \
                [forall(p, E, lambda k: Implies(INT.eq(c(p), 0), Not(P(k))), 'no match')]
        fd = Fact(trig, define, 'greedy')
        fd.rec = True
        d = (C, fd, Fact(trig, lemma, 'greedy lemma'), P, c, w)
        _occ[key] = d
    C, f1, f2, P, c, w = d
    done = ctx.__dict__.setdefault('lemmas', set())
    if key not in done and not ctx.silent:
        done.add(key)
        s2 = State(ctx)                            # nothing of the path is used
        occurs(s2, ra, rb, m)
        s2.assume(ile(1, m))
        p = INT.var(fresh_name('p'), -INF, INF)
        s2.assume(f1.body(p)[0])
        for q in (iadd(p, 1), iadd(p, m)):
            b, fs = f2.body(q)                      # induction hypothesis at larger positions
            s2.assume(b)
            s2.facts.extend(fs)
        if step is None:
            wq = keep(w(zi(iadd(p, 1))))
            goals = [ile(0, c(p)), Or(ile(c(p), isub(E, p)), INT.eq(c(p), 0)), Implies(ilt(0, c(p)), Or(And(ilt(p, E), P(p)), And(ile(p, wq), ilt(wq, E), P(wq))))]
            k = INT.var(fresh_name('k'), -INF, INF)
            goals.append(Implies(And(ile(p, k), ilt(k, E), INT.eq(c(p), 0)), Not(P(k))))
            keep(P(k)) if not isinstance(P(k), bool) else None
        else:
            goals = [f2.body(p)[0]]
        for i, g in enumerate(goals):
            ctx.oblige(s2.fork(), g, 'lemma: greedy match count (induction step %d)' % i, 'lemma', 'contract', assume=False)
    for f in (f1, f2):
        if not any(g is f for g in st.facts):
            st.facts.append(f)
    return c


# ------------------------------------------------------------------ replacing the greedy matches (defined functions)
class Rewrite:
    """the text that arises from ra[0..L0) when the matches of rb[0..m) found by scanning from `start` while p < E
    (leftmost first, not overlapping) are replaced by rr[0..k).  All functions are defined by recursion on the scan:
    P(i) position of the scan in the old text after i steps, V(p) growth caused by the matches from p on, C(p) their number,
    O(i) = P(i) + V(start) - V(P(i)) position reached in the new text, out(q) the new text."""

    def __init__(self, eng, st, ra, L0, rb, m, rr, k, start, E):
        self.eng, self.ra, self.L0, self.rb, self.m, self.rr, self.k, self.start, self.E = eng, ra, L0, rb, m, rr, k, start, E
        self.delta = isub(k, m)
        self.M = occurs(st, ra, rb, m)
        self.V = greedy(eng, st, ra, rb, m, E, self.delta)
        self.C = greedy(eng, st, ra, rb, m, E)
        x = keep(z3.Int('probe!oa'))
        n = named('scanpos', ra(x), rb(x), rr(x), m, k, start, E, L0, self.V(start))
        F = z3.Function(n, z3.IntSort(), z3.IntSort())
        G = z3.Function(n.replace('scanpos', 'rewritten'), z3.IntSort(), z3.IntSort())
        KEEP.extend([F, G])
        self.P = lambda i: keep(F(zi(i)))
        self.out = lambda q: keep(G(zi(q)))
        self.total = self.V(start)
        f = Fact([(n, lambda ch: z3u(ch[0]))], self.define, 'scan')
        f.rec = True
        self.facts = [f, Fact([(n, lambda ch: z3u(ch[0]))], self.lemma, 'scan lemma'),
                      Fact([(G.name(), lambda ch: z3u(ch[0]))], lambda q: (Implies(Or(ilt(q, start), INT.eq(self.C(start), 0)), INT.eq(self.out(q), ra(q))), []), 'before the range, and without matches')]

    def O(self, i):
        p = self.P(i)
        return isub(iadd(p, self.total), self.V(p))

    def define(self, i):
        p, p1, o = self.P(i), self.P(iadd(i, 1)), self.O(i)
        run = And(ile(0, i), ilt(p, self.E))
        hit = And(run, self.M(p))
        miss = And(run, Not(self.M(p)))
        b = And(Implies(INT.eq(i, 0), INT.eq(p, self.start)),
                Implies(hit, INT.eq(p1, iadd(p, self.m))),
                Implies(miss, And(INT.eq(p1, iadd(p, 1)), INT.eq(self.out(o), self.ra(p)))),
                Implies(And(ile(0, i), ile(self.E, p)), INT.eq(p1, p)))
        done = And(ile(0, i), ile(self.E, p))
        return b, [forall(0, self.k, lambda j: Implies(hit, INT.eq(self.out(iadd(o, j)), self.rr(j))), 'replacement'),
                   forall(o, None, lambda q: Implies(done, INT.eq(self.out(q), self.ra(isub(q, self.total)))), 'after the scan')]

    def lemma(self, i):
        """proved by induction on i"""
        p = self.P(i)
        g = isub(self.total, self.V(p))
        return Implies(ile(0, i), And(ile(self.start, p), ile(self.start, self.O(i)), Implies(ile(0, self.delta), ile(0, g)), Implies(ile(self.delta, 0), ile(g, 0)))), []

    def straight(self, i):
        """without matches the scan takes every position: proved by induction on i"""
        p = self.P(i)
        return Implies(And(ile(0, i), Or(INT.eq(i, 0), ile(iadd(self.start, i), self.E)), INT.eq(self.C(self.start), 0)), And(INT.eq(p, iadd(self.start, i)), INT.eq(self.V(p), 0)))

    def add(self, st):
        for f in self.facts:
            if not any(g is f for g in st.facts):
                st.facts.append(f)

    def prove_lemmas(self):
        ctx = self.eng.ctx

        def base():
            s = State(ctx)
            occurs(s, self.ra, self.rb, self.m)
            greedy(self.eng, s, self.ra, self.rb, self.m, self.E, self.delta)
            greedy(self.eng, s, self.ra, self.rb, self.m, self.E)
            s.assume(ile(1, self.m))
            s.assume(ile(0, self.k))
            return s
        i = INT.var(fresh_name('i'), 0, INF)
        s = base()
        s.facts.append(self.facts[0])
        s.assume(self.define(0)[0])
        ctx.oblige(s.fork(), self.lemma(0)[0], 'lemma: the scan stays behind its start (base)', 'lemma', 'contract', assume=False)
        s.assume(self.define(i)[0])
        s.assume(self.lemma(i)[0])
        ctx.oblige(s, self.lemma(iadd(i, 1))[0], 'lemma: the scan stays behind its start (step)', 'lemma', 'contract', assume=False)
        total = INT.eq(self.total, imul(self.delta, self.C(self.start)))
        s = base()
        s.facts.append(self.facts[0])
        s.assume(total)
        s.assume(self.define(0)[0])
        ctx.oblige(s.fork(), self.straight(0), 'lemma: without matches every position is scanned (base)', 'lemma', 'contract', assume=False)
        s.assume(self.straight(i))
        s.assume(self.define(i)[0])
        s.assume(ilt(iadd(self.start, i), self.E))
        ctx.oblige(s, self.straight(iadd(i, 1)), 'lemma: without matches every position is scanned (step)', 'lemma', 'contract', assume=False)
        q = INT.var(fresh_name('q'), -INF, INF)
        for what, at, c in (('inside', isub(q, self.start), ilt(q, self.E)), ('behind', isub(self.E, self.start), And(ilt(self.start, self.E), ile(self.E, q))), ('empty', 0, ile(self.E, self.start))):
            s = base()
            s.facts.append(self.facts[0])
            for t in (total, ile(self.start, q), c, self.straight(at), INT.eq(self.C(self.start), 0)):
                s.assume(t)
            b, fs = self.define(at)
            s.assume(b)
            s.facts.extend(fs)
            ctx.oblige(s, INT.eq(self.out(q), self.ra(q)), 'lemma: without matches the text is kept (%s)' % what, 'lemma', 'contract', assume=False)
        # the growth is the number of matches times the growth of one: by induction on E - p
        s = base()
        p = INT.var(fresh_name('p'), -INF, INF)

        def same(q):
            return INT.eq(self.V(q), imul(self.delta, self.C(q)))
        for q in (iadd(p, 1), iadd(p, self.m)):
            s.assume(same(q))
        ctx.oblige(s, same(p), 'lemma: growth is matches times growth of one (step)', 'lemma', 'contract', assume=False)


def rewrite(eng, st, ra, L0, rb, m, rr, k, start, E):
    """a Rewrite; the same one for a text that is known to be equal to an earlier one"""
    ctx = eng.ctx
    x, y = keep(z3.Int('probe!oa')), keep(z3.Int('probe!ob'))
    ident = lambda *ts: tuple(t if isinstance(t, int) else t.get_id() for t in ts)
    rest = ident(rb(y), m, rr(y), k, start, E)
    reg = ctx.__dict__.setdefault('rewrites', [])
    R = None
    for key, a, r in reg:
        if key == rest and ident(a) == ident(ra(x)):
            R = r
            break
    if R is None:
        for key, a, r in reg:
            if key == rest:
                j = INT.var(fresh_name('j'), 0, INF)
                s2 = st.fork()
                s2.assume(ilt(j, L0))
                if ctx.prove_quick(st, INT.eq(L0, r.L0)) and ctx.prove_quick(s2, INT.eq(ra(j), r.ra(j))):
                    R = r
                    reg.append((rest, keep(ra(x)), r))
                    break
    if R is None:
        R = Rewrite(eng, st, ra, L0, rb, m, rr, k, start, E)
        reg.append((rest, keep(ra(x)), R))
    if ctx.prove_lemmas == 'rewrite' and not ctx.silent and not any(isinstance(t, int) for t in (m, k, start, E)):
        ctx.prove_lemmas = 'done'            # once: the other uses are instances of it
        R.prove_lemmas()
    greedy(eng, st, R.ra, rb, m, E, R.delta)
    greedy(eng, st, R.ra, rb, m, E)
    R.add(st)
    st.assume(INT.eq(R.total, imul(R.delta, R.C(start))))
    return R



# ------------------------------------------------------------------ formatted output
def defined(st, f):
    f.valid = True
    st.facts.append(f)


def numeral(eng, st, v, pad=0):
    """decimal numeral of the integer v (at least `pad` digits, as %0<pad>d): (length, character function); adds its defining facts"""
    nm = 'dec%d' % pad if pad else 'dec'
    L = z3.Function(nm + '_len', z3.IntSort(), z3.IntSort())
    C = z3.Function(nm + '_chr', z3.IntSort(), z3.IntSort(), z3.IntSort())
    KEEP.extend([L, C])
    if isinstance(v, int):
        s = ('%0*d' % (pad, v)) if pad else str(v)
        return len(s), lambda k, s=s: const_text(eng, [ord(c) for c in s], k)
    lo, hi = interval(v, st.env)
    lo, hi = max(lo, -(1 << 63)), min(hi, (1 << 64) - 1)

    def digit(e):
        """digit of 10**e"""
        return iadd(48, INT.fdivmod(INT.fdivmod(v, 10 ** e)[0], 10)[1])

    def digits(e, m):
        """digit of 10**e for e in 0..m-1"""
        if isinstance(e, int):
            return digit(max(0, min(e, m - 1)))
        r = digit(m - 1)
        for i in range(m - 1):
            r = ite_val(INT, ieq(e, i), digit(i), r)
        return r
    if pad > 1 and lo >= 0 and hi < 10 ** pad:
        return pad, lambda k: digits(isub(pad - 1, k), pad)
    n = keep(L(zi(v)))
    c = lambda k: keep(C(zi(v), zi(k)))

    def each(n, body):
        """of every character of the text"""
        key = zi(v).get_id()
        defined(st, Fact([(nm + '_chr', lambda args: from_lin(to_lin(args[1])) if args[0].get_id() == key else None)], lambda k: Implies(And(ile(0, k), ilt(k, n)), body(k)), nm))
    within = And(ile(lo, v), ile(v, hi))
    st.define(ile(max(1, pad), n))
    st.define(Implies(within, ile(n, max(pad, len(str(int(lo))), len(str(int(hi)))))))
    st.define(Implies(And(ile(0, v), ile(v, 9), pad <= 1), And(INT.eq(n, 1), INT.eq(c(0), iadd(48, v)))))
    D = len(str(int(hi)))
    if D <= 10 and pad <= 1:
        # the length is the number of digits
        for i in range(1, D):
            st.define(Implies(ile(0, v), Iff(ilt(v, 10 ** i), ile(n, i))))
        if lo < 0 <= hi:
            st.define(Implies(And(ile(0, v), ile(v, hi)), ile(n, D)))
        if hi >= 0:
            each(n, lambda k: Implies(And(within, ile(0, v)), INT.eq(c(k), digits(isub(isub(n, 1), k), D))))
    if pad > 1 and 0 <= hi < 10 ** pad:
        st.define(Implies(And(ile(0, v), ile(v, hi)), INT.eq(n, pad)))
        each(n, lambda k: Implies(And(ile(0, v), ile(v, hi)), INT.eq(c(k), digits(isub(pad - 1, k), pad))))
    elif pad > 1:
        # leading zeros, then the plain numeral
        m, d = numeral(eng, st, v)
        st.define(Implies(ile(0, v), INT.eq(n, ite_val(INT, ilt(m, pad), pad, m))))
        each(n, lambda k: Implies(ile(0, v), INT.eq(c(k), ite_val(INT, ilt(k, isub(n, m)), 48, d(isub(k, isub(n, m)))))))
    each(n, lambda k: And(ile(45, c(k)), ile(c(k), 57), Not(INT.eq(c(k), 46)), Not(INT.eq(c(k), 47))))
    return n, c


def gnumeral(eng, st, f):
    """%G text of a double: (length, character function)"""
    L = z3.Function('gfmt_len', z3.BitVecSort(64), z3.IntSort())
    C = z3.Function('gfmt_chr', z3.BitVecSort(64), z3.IntSort(), z3.IntSort())
    KEEP.extend([L, C])
    b = f.bits
    n = keep(L(b))
    st.define(ile(1, n))
    st.define(ile(n, 13))
    c = lambda k: keep(C(b, zi(k)))
    defined(st, forall(0, n, lambda k: And(ile(33, c(k)), ile(c(k), 126))))
    return n, c


def const_text(eng, codes, k):
    if isinstance(k, int):
        return codes[k] if 0 <= k < len(codes) else 0
    r = codes[-1]
    for i in range(len(codes) - 2, -1, -1):
        r = INT.ite(INT.eq(k, i), codes[i], r)
    return r


def joined(pieces):
    """concatenation of (length, chars): (total, chars)"""
    total = 0
    starts = []
    for n, _ in pieces:
        starts.append(total)
        total = iadd(total, n)

    def ch(k):
        r = pieces[-1][1](isub(k, starts[-1]))
        for i in range(len(pieces) - 2, -1, -1):
            c = ilt(k, starts[i + 1])
            r = ite_val(INT, c, pieces[i][1](isub(k, starts[i])), r)
        return r
    return total, ch


@ext('swprintf')
def swprintf(eng, st, args, ins):
    if eng.dom is BV:
        raise Unsupported('swprintf in BV mode')
    dest, size, fmt = args[:3]
    rest = list(args[3:])
    fb = st.blk(fmt.b)
    if fb is None or not fb.segs or not isinstance(fb.segs[0].chain, ConstC):
        raise Unsupported('format string is not constant')
    f = ''.join(chr(x) for x in fb.segs[0].chain.vals)
    f = f[f_off(fmt):].split('\0')[0]
    pieces = []
    i = 0
    lit = ''

    def flush():
        nonlocal lit
        if lit:
            codes = [ord(c) for c in lit]
            pieces.append((len(codes), lambda k, codes=codes: const_text(eng, codes, k)))
            lit = ''
    while i < len(f):
        if f[i] != '%':
            lit += f[i]
            i += 1
            continue
        m = re.match(r'%(0(\d))?(lld|llu|ld|lu|d|u|G)', f[i:])
        if not m:
            raise Unsupported('format ' + f)
        flush()
        i += m.end()
        a = rest.pop(0)
        kind = m.group(3)
        if kind == 'G':
            if not isinstance(a, FloatVal) or a.w != 64:
                raise Unsupported('%G of something else')
            pieces.append(gnumeral(eng, st, a))
        else:
            w = 64 if 'l' in kind else 32
            v = INT.wrap(w, a, st)
            if kind[-1] == 'u':
                v = INT.uns(w, v, st)
            pieces.append(numeral(eng, st, v, int(m.group(2) or 0)))
    flush()
    total, ch = joined(pieces)
    dest = eng.resolve_ptr(st, dest, ins, 'swprintf')
    b = eng.live_blk(st, dest, ins, 'swprintf')
    si = eng.find_seg(b, dest.off)
    if si is None:
        raise Unsupported('swprintf into a record')
    out = []
    fits = ilt(total, size)
    for ok in (True, False):
        s = st.fork()
        if not s.assume(fits if ok else Not(fits)) or not eng.ctx.feasible(s):
            continue
        n = iadd(total, 1) if ok else size
        bb = s.blk(dest.b)
        try:
            eng.seg_access(s, bb, dest.off, imul(4, n), ins, 'swprintf')
        except PathEnd:
            continue
        if bb.segs[si].w is None:
            bb = eng.set_width(s, dest.b, si, 4, 'i')
        sg = bb.segs[si]
        if sg.w != 4:
            raise Unsupported('swprintf into another width')
        q, _ = off_divmod(INT, off_sub(INT, dest.off, sg.start), 4, s)
        if ok:
            c = CopyC(sg.chain, q, total, FnC(lambda k, q=q: ch(isub(k, q))), q)
            c = StoreC(c, iadd(q, total), 0)
            s.ghost[('nul', dest.b)] = (iadd(q, total),)
        else:
            c = CopyC(sg.chain, q, size, BaseC(INT, 4, 'i', 'cut'), q)
        s.wblk(dest.b).segs[si] = sg.with_chain(c)
        out.append((s, ('ret', total if ok else -1)))
    return out


def scanned(b, at, w):
    """outcome of scanning a floating-point number at position `at` of the unmodified text b: (accepted, value, characters used)"""
    sort = z3.Float64() if w == 64 else z3.Float32()
    a = (z3.IntVal(b), zi(at))
    return [keep(z3.Function('scan%d_%s' % (w, n), z3.IntSort(), z3.IntSort(), s)(*a)) for n, s in (('ok', z3.BoolSort()), ('value', sort), ('used', z3.IntSort()))]


@ext('swscanf', '__isoc99_swscanf', '__isoc23_swscanf')
def swscanf(eng, st, args, ins):
    src, fmt = args[:2]
    if eng.dom is BV:
        raise Unsupported('swscanf in BV mode')
    fb = st.blk(fmt.b)
    if fb is None or not fb.segs or not isinstance(fb.segs[0].chain, ConstC):
        raise Unsupported('format string is not constant')
    f = ''.join(chr(x) for x in fb.segs[0].chain.vals)[f_off(fmt):].split('\0')[0]
    m = re.match(r'%(l?)[aAeEfFgG](%n)?$', f)
    if not m:
        raise Unsupported('scanning ' + f)
    USED.add('swscanf')
    w = 64 if m.group(1) else 32
    read, n, b, q = wide_view(eng, st, src, ins, 'swscanf')
    sg = b.segs[eng.find_seg(b, src.off)]
    if not b.name or not text_base(sg.chain):
        raise Unsupported('swscanf of a changed text')
    terminator(eng, st, read, n, b, q, ins, 'swscanf')
    ok, val, used = scanned(b.id, q, w)
    defined(st, forall(0, used, lambda k: Not(INT.eq(read(k), 0))))
    st.define(Implies(ok, ile(1, used)))
    for g in st.ghost.get(('nul', b.id), ()):
        # none of the characters used is the terminator
        st.define(Implies(And(ok, ile(q, g)), ile(iadd(q, used), g)))
    out = []
    for good in (True, False):
        s = st.fork()
        if not s.assume(ok if good else Not(ok)) or not eng.ctx.feasible(s):
            continue
        if good:
            eng.store(s, args[2], ('f%d' % w,), FloatVal(w, fp=val), ins, 'swscanf')
            if m.group(2):
                eng.store(s, args[3], ('i', 32), INT.wrap(32, used, s), ins, 'swscanf')
            out.append((s, ('ret', 1)))
        else:
            r = INT.var(fresh_name('scanned'), -1, 0)
            out.append((s, ('ret', r)))
    return out


def text_base(c):
    """contents as they were on entry (up to the terminator stored by the precondition)"""
    while isinstance(c, StoreC):
        c = c.base
    return isinstance(c, BaseC)


def f_off(p):
    if not isinstance(p.off, int):
        raise Unsupported('format string offset')
    return p.off // 4
