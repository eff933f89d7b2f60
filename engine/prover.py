"""Path conditions, universally quantified facts with explicit instantiation, solver queries."""
import time, os
import z3
from . import terms as T
from .terms import *

_sym = {}
_symnames = {}
PROFILE = os.environ.get('VPROF')


def symbols(t):
    """ids->terms of all uninterpreted constants and applications inside t (memoised per term)"""
    if isinstance(t, (bool, int)):
        return {}
    i = t.get_id()
    r = _sym.get(i)
    if r is not None:
        return r
    keep(t)
    out = {}
    stack = [t]
    seen = set()
    while stack:
        x = stack.pop()
        xi = x.get_id()
        if xi in seen:
            continue
        seen.add(xi)
        rr = _sym.get(xi)
        if rr is not None:
            out.update(rr)
            continue
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out[xi] = x
                KEEP.append(x)
            stack.extend(x.children())
    _sym[i] = out
    return out


def sym_serial(name):
    k = name.rfind('!')
    if k < 0:
        return 0
    try:
        return int(name[k + 1:])
    except ValueError:
        return 0


def max_serial(t, exclude=()):
    m = 0
    for x in symbols(t).values():
        n = x.decl().name()
        if n in exclude:
            continue
        m = max(m, sym_serial(n))
    return m


def subst(t, m):
    """substitute constants (by name) and re-normalise; m: name -> term ; also function rename via m['@name']"""
    if isinstance(t, (bool, int)):
        return t
    memo = {}

    def go(x):
        xi = x.get_id()
        r = memo.get(xi)
        if r is not None:
            return r
        if not any(s.decl().name() in m for s in symbols(x).values()):
            memo[xi] = x
            return x
        d = x.decl()
        k = d.kind()
        ch = x.children()
        if k == z3.Z3_OP_UNINTERPRETED and not ch and d.name() in m:
            r = m[d.name()]
        else:
            nc = [go(c) for c in ch]
            if k == z3.Z3_OP_ADD:
                r = 0
                for c in nc:
                    r = iadd(unz(r), unz(c))
            elif k == z3.Z3_OP_SUB:
                r = unz(nc[0])
                for c in nc[1:]:
                    r = isub(r, unz(c))
            elif k == z3.Z3_OP_MUL and z3.is_int(x):
                r = 1
                for c in nc:
                    r = imul(r, unz(c))
            elif k == z3.Z3_OP_UMINUS:
                r = imul(-1, unz(nc[0]))
            elif k == z3.Z3_OP_GE and z3.is_int(ch[0]):
                r = ile(unz(nc[1]), unz(nc[0]))
            elif k == z3.Z3_OP_LE and z3.is_int(ch[0]):
                r = ile(unz(nc[0]), unz(nc[1]))
            elif k == z3.Z3_OP_EQ and z3.is_int(ch[0]):
                r = INT.eq(unz(nc[0]), unz(nc[1]))
            elif k == z3.Z3_OP_NOT:
                r = Not(unzb(nc[0]))
            elif k == z3.Z3_OP_AND:
                r = And(*[unzb(c) for c in nc])
            elif k == z3.Z3_OP_OR:
                r = Or(*[unzb(c) for c in nc])
            elif k == z3.Z3_OP_ITE and z3.is_int(x):
                r = INT.ite(unzb(nc[0]), unz(nc[1]), unz(nc[2]))
            else:
                r = keep(d(*[toz(c) for c in nc]))
        memo[xi] = r
        return r
    return unzb(unz(go(t)))


def toz(c):
    if isinstance(c, bool):
        return z3.BoolVal(c)
    if isinstance(c, int):
        return z3.IntVal(c)
    return c


def unz(t):
    if isinstance(t, (int, bool)):
        return t
    if z3.is_int_value(t):
        return t.as_long()
    return t


def unzb(t):
    if isinstance(t, (int, bool)):
        return t
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return t


class Fact:
    """forall m. body(m), instantiated for trigger applications: trigs = [(declname, inv)] where
    inv(arg terms) -> m or None.  body(m) returns bool term, or (bool term, [Fact])."""
    __slots__ = ('trigs', 'body', 'cache', 'name', 'gr', 'rec', 'valid')

    def __init__(self, trigs, body, name=''):
        self.trigs = trigs
        self.body = body
        self.cache = {}
        self.name = name
        self.gr = None
        self.valid = False      # true of every state (a definition)
        self.rec = False        # a recursive definition: not applied to the terms it produces itself

    def ground(self):
        """applications inside the body that do not depend on the bound variable"""
        if self.gr is None:
            v = keep(z3.Int('probe!g'))
            try:
                b, fs = self.inst(v)
            except Exception:
                b, fs = True, []
            out = {}

            def add(b):
                if isinstance(b, bool):
                    return
                for i, x in symbols(b).items():
                    if x.num_args() and not any(y.decl().name() == 'probe!g' for y in symbols(x).values()):
                        out[i] = x
            add(b)
            for f in fs:
                for i, x in f.ground().items():
                    if not any(y.decl().name() == 'probe!g' for y in symbols(x).values()):
                        out[i] = x
            self.gr = out
        return self.gr

    def inst(self, m):
        key = m if isinstance(m, int) else ('t', m.get_id())
        r = self.cache.get(key)
        if r is None:
            if not isinstance(m, int):
                keep(m)
            b = self.body(m)
            r = b if isinstance(b, tuple) else (b, [])
            self.cache[key] = r
        return r

    def guarded(self, cond):
        if cond is True:
            return self
        f = self

        def body(m):
            b, fs = f.inst(m)
            return (Implies(cond, b), [x.guarded(cond) for x in fs])
        r = Fact(self.trigs, body, self.name)
        r.rec = self.rec
        return r


def auto_trigs(t, var):
    """triggers from applications in t whose (single) argument is linear in var"""
    out = []
    seen = set()
    vn = var.decl().name()
    for x in symbols(t).values():
        if x.num_args() != 1 or not z3.is_int(x.arg(0)):
            continue
        l = to_lin(x.arg(0))
        co = l[1].get(var.get_id())
        if not co:
            continue
        rest = (l[0], {k: v for k, v in l[1].items() if k != var.get_id()})
        if any(vn in [s.decl().name() for s in symbols(v[1]).values()] for v in rest[1].values()):
            continue
        r = from_lin(rest)
        c = co[0]
        key = (x.decl().name(), c, r if isinstance(r, int) else r.get_id())
        if key in seen:
            continue
        seen.add(key)

        def inv(args, r=r, c=c):
            d = isub(unz(args[0]), r)
            if c < 0:
                d = imul(-1, d)
            return INT.fdivmod(d, abs(c))[0] if abs(c) != 1 else d
        out.append((x.decl().name(), inv))
    return out


def forall(lo, hi, body, name='', trig_terms=None):
    """Fact: for all m in [lo,hi): body(m) (Int mode)"""
    v = keep(z3.Int(fresh_name('q')))
    b = body(v)
    trigs = auto_trigs(b, v) if not isinstance(b, bool) else []

    def inst(m):
        return Implies(And(ile(lo, m), True if hi is None else ilt(m, hi)), body(m))
    return Fact(trigs, inst, name)


_nl = {}


FP_HEAVY = {z3.Z3_OP_FPA_MUL, z3.Z3_OP_FPA_DIV, z3.Z3_OP_FPA_FMA, z3.Z3_OP_FPA_REM, z3.Z3_OP_FPA_SQRT}
FP_ALL = FP_HEAVY | {z3.Z3_OP_FPA_ADD, z3.Z3_OP_FPA_SUB, z3.Z3_OP_FPA_ROUND_TO_INTEGRAL, z3.Z3_OP_FPA_TO_FP, z3.Z3_OP_FPA_TO_SBV, z3.Z3_OP_FPA_TO_UBV}
_heavy = {}


def fp_heavy(t):
    if isinstance(t, bool):
        return False
    i = t.get_id()
    r = _heavy.get(i)
    if r is None:
        r = (z3.is_app(t) and t.decl().kind() in FP_HEAVY) or any(fp_heavy(c) for c in t.children())
        _heavy[i] = r
        KEEP.append(t)
    return r


def propagate(fs):
    """replace inside each formula what other formulas of the set state outright (literals, constants of variables)"""
    fs = [zb(f) for f in fs]
    for _ in range(2):
        eqs, lits = [], []
        for f in fs:
            if z3.is_not(f):
                lits.append((f.arg(0), z3.BoolVal(False)))
            elif z3.is_eq(f) and f.num_args() == 2 and z3.is_const(f.arg(0)) and z3.is_int_value(f.arg(1)):
                eqs.append((f.arg(0), f.arg(1)))
            elif z3.is_eq(f) and f.num_args() == 2 and z3.is_const(f.arg(1)) and z3.is_int_value(f.arg(0)):
                eqs.append((f.arg(1), f.arg(0)))
            elif not z3.is_and(f) and not z3.is_or(f):
                lits.append((f, z3.BoolVal(True)))
        out = []
        for i, f in enumerate(fs):
            g = f
            if z3.is_and(f) or z3.is_or(f) or fp_heavy(f):
                l2 = [l for l in lits if not l[0].eq(f) and not (z3.is_not(f) and l[0].eq(f.arg(0)))]
                if l2:
                    g = z3.substitute(g, *l2)
            if eqs and not any(e[0].eq(c) for e in eqs if z3.is_eq(f) for c in f.children()):
                g = z3.substitute(g, *eqs)
            if not g.eq(f):
                g = z3.simplify(g)
                KEEP.append(g)
            out.append(g)
        fs = out
    return fs


def fp_abstract(t, ops, memo):
    """replace floating-point operations by uninterpreted functions (sound: the abstraction of an unsatisfiable set that stays unsatisfiable)"""
    if isinstance(t, bool):
        return z3.BoolVal(t)
    i = t.get_id()
    r = memo.get(i)
    if r is not None:
        return r
    ch = t.children()
    if not ch:
        r = t
    else:
        nc = [fp_abstract(c, ops, memo) for c in ch]
        d = t.decl()
        if d.kind() in ops and (z3.is_fp(t) or z3.is_bv(t)) and not all(z3.is_fp_value(c) or z3.is_fprm(c) or z3.is_bv_value(c) or z3.is_rational_value(c) for c in nc) and not (d.kind() == z3.Z3_OP_FPA_TO_FP and len(nc) == 1):
            f = z3.Function('abs!%d!%s!%s' % (d.kind(), '.'.join(str(d.domain(j)) for j in range(d.arity())), d.range()), *([d.domain(j) for j in range(d.arity())] + [d.range()]))
            if d.kind() in (z3.Z3_OP_FPA_ADD, z3.Z3_OP_FPA_MUL) and nc[1].get_id() > nc[2].get_id():
                nc[1], nc[2] = nc[2], nc[1]
            r = f(*nc)
        else:
            r = t if all(a.eq(b) for a, b in zip(ch, nc)) else d(*nc)
    memo[i] = r
    KEEP.append(r)
    return r


def has_nl(t):
    """contains a product / quotient of two unknowns"""
    if isinstance(t, (bool, int)):
        return False
    i = t.get_id()
    r = _nl.get(i)
    if r is None:
        r = False
        stack, seen = [t], set()
        while stack and not r:
            x = stack.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            q = _nl.get(x.get_id())
            if q is not None:
                r = r or q
                continue
            if z3.is_app(x):
                k = x.decl().kind()
                ch = x.children()
                if k == z3.Z3_OP_MUL and sum(1 for c in ch if not z3.is_int_value(c)) > 1:
                    r = True
                elif k in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD) and not z3.is_int_value(ch[1]):
                    r = True
                stack.extend(ch)
        keep(t)
        _nl[i] = r
    return r


class Solver:
    """Query layer. Results: 'proved', ('cex', model), 'unknown'."""

    def __init__(self):
        self.stats = dict(queries=0, z3_time=0.0, cvc5_time=0.0, proved=0, cex=0, unknown=0, cvc5_proved=0)
        self.use_cvc5_fallback = True
        self.cross = False
        self.in_obl = False
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)

    def gather(self, asserts, facts, rounds=3, cap=400):
        asserts = [a for a in asserts if a is not True]
        out = list(asserts)
        apps = {}
        for a in out:
            apps.update(symbols(a))
        done = set()
        n = 0
        facts = list(facts)
        for f in facts:
            apps.update(f.ground())
        allfacts = list(facts)
        ids = set(id(f) for f in allfacts)
        own = set()
        for rnd in range(rounds):
            byname = {}
            for x in apps.values():
                dn = x.decl().name()
                byname.setdefault(dn, []).append(x)
                if dn.startswith('occurs'):
                    byname.setdefault('occurs*', []).append(x)
            new, recnew = [], []
            for f in list(allfacts):
                if not f.trigs:
                    # no trigger: instantiate nothing
                    continue
                for dn, inv in f.trigs:
                    for x in byname.get(dn, ()):
                        if f.rec and x.get_id() in own:
                            continue
                        m = inv(x.children())
                        if m is None:
                            continue
                        key = (id(f), m if isinstance(m, int) else ('t', m.get_id()))
                        if key in done:
                            continue
                        done.add(key)
                        b, fs = f.inst(m)
                        for g in fs:
                            if id(g) not in ids:
                                ids.add(id(g))
                                allfacts.append(g)
                                apps.update(g.ground())
                        if b is True:
                            continue
                        (recnew if f.rec else new).append(b)
                        n += 1
                        if n > cap:
                            break
            if not new and not recnew:
                break
            out.extend(new)
            for a in new:
                apps.update(symbols(a))
            for a in recnew:
                out.append(a)
                for i, x in symbols(a).items():
                    if i not in apps:
                        apps[i] = x
                        own.add(i)
            if n > cap:
                break
        # ranges
        rng = []
        for x in apps.values():
            r = RANGE.get(x.decl().name())
            if r and z3.is_int(x):
                if r[0] != -INF:
                    rng.append(x >= int(r[0]))
                if r[1] != INF:
                    rng.append(x <= int(r[1]))
        return [zb(o) for o in out] + rng

    def slice(self, fs, last):
        """formulas connected to the last assertion through shared symbols (dropping hypotheses is sound)"""
        keys = []
        for f in fs:
            ks = _symnames.get(f.get_id())
            if ks is None:
                ks = frozenset(x.decl().name() for x in symbols(f).values())
                keep(f)
                _symnames[f.get_id()] = ks
            keys.append(ks)
        cone = set()
        for f, ks in zip(fs, keys):
            if f.eq(last):
                cone |= ks
        if not cone:
            return fs
        rest = list(zip(fs, keys))
        out = []
        while True:
            nxt = []
            grown = False
            for f, ks in rest:
                if ks & cone:
                    out.append(f)
                    if not ks <= cone:
                        cone |= ks
                        grown = True
                else:
                    nxt.append((f, ks))
            if len(nxt) == len(rest) or not nxt:
                break
            rest = nxt
            if not grown:
                break
        return out

    def check(self, asserts, facts, timeout, want_model=False, extra=None, rounds=3, full=False, quick=False, cap=400):
        """sat check of conjunction; -> ('unsat',None)/('sat',model)/('unknown',None)"""
        for a in asserts:
            if a is False:
                return ('unsat', None)
        fs = self.gather(asserts, facts, rounds=rounds, cap=cap)
        if asserts and not full and not has_nl(asserts[-1]) and any(has_nl(f) for f in fs):
            lin = [f for f in fs if not has_nl(f)]
            if quick:
                fs = lin
            elif self.run(self.slice(lin, zb(asserts[-1])), timeout, False)[0] == 'unsat':
                return ('unsat', None)
        if asserts and not full and not isinstance(asserts[-1], bool):
            sl = self.slice(fs, zb(asserts[-1]))
            if len(sl) < len(fs):
                r, m = self.run(sl, timeout, False, quick)
                if r == 'unsat' or not want_model:
                    return (r, m if r == 'unknown' else None)
                if r == 'unknown':
                    return (r, m)
        return self.run(fs, timeout, want_model, quick)

    def run(self, fs, timeout, want_model, quick=False):
        s = z3.Solver()
        s.set('timeout', int(timeout * 1000))
        s.set('random_seed', self.seed)
        for f in fs:
            s.add(f)
        t = time.time()
        self.stats['queries'] += 1
        heavy = any(fp_heavy(f) for f in fs)
        if heavy:
            fs = propagate(fs)
            for ops in (FP_ALL, FP_HEAVY):
                s2 = z3.Solver()
                s2.set('timeout', int(min(timeout, 6) * 1000))
                memo = {}
                for f in fs:
                    s2.add(fp_abstract(f, ops, memo))
                t2 = time.time()
                r2 = s2.check()
                if PROFILE and time.time() - t2 > float(PROFILE):
                    print('   abs', len(ops), r2, time.time() - t2)
                    for f in s2.assertions():
                        print('        ', str(f)[:1500])
                if r2 == z3.unsat:
                    self.stats['z3_time'] += time.time() - t
                    if self.cross and self.in_obl:
                        q = self.cvc5_check(list(s2.assertions()), 10)
                        k = 'cross_agree' if q == 'unsat' else 'cross_disagree' if q == 'sat' else 'cross_silent'
                        self.stats[k] = self.stats.get(k, 0) + 1
                    return ('unsat', None)
                if quick:
                    return ('unknown', fs)
        try:
            r = s.check()
        except z3.Z3Exception:
            r = z3.unknown
        dt = time.time() - t
        self.stats['z3_time'] += dt
        if PROFILE and dt > float(PROFILE):
            print('--- %.2fs %s' % (dt, r))
            for f in fs:
                print('     ', str(f)[:300])
        if r == z3.unsat:
            if self.cross and self.in_obl:
                q = self.cvc5_check(fs, 10)
                k = 'cross_agree' if q == 'unsat' else 'cross_disagree' if q == 'sat' else 'cross_silent'
                self.stats[k] = self.stats.get(k, 0) + 1
            return ('unsat', None)
        if r == z3.sat:
            return ('sat', s.model() if want_model else None)
        return ('unknown', fs)

    def cvc5_check(self, fs, timeout):
        """second back end on the same ground formulas, via SMT-LIB text"""
        try:
            import cvc5
        except ImportError:
            return 'unknown'
        t0 = time.time()
        s = z3.Solver()
        for f in fs:
            s.add(f)
        txt = s.to_smt2()
        try:
            tm = cvc5.TermManager()
            slv = cvc5.Solver(tm)
            slv.setOption('tlimit-per', str(int(timeout * 1000)))
            slv.setLogic('ALL')
            p = cvc5.InputParser(slv)
            p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, txt, 'q')
            sm = p.getSymbolManager()
            res = 'unknown'
            while True:
                c = p.nextCommand()
                if c.isNull():
                    break
                o = c.invoke(slv, sm)
                if o and o.strip() in ('sat', 'unsat', 'unknown'):
                    res = o.strip()
        except Exception as e:      # parse problems etc.: no verdict from this back end
            res = 'unknown'
        self.stats['cvc5_time'] += time.time() - t0
        return res
