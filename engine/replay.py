"""Running contracts against the compiled library: counterexample replay, search and validation."""
import os, random, struct, subprocess, tempfile, shutil, time, json, hashlib
from concurrent.futures import ThreadPoolExecutor
from . import extract
from .world import *
from .world import FMT, TYSIZE
from .setup import ConSetup, RandProvider, BigProvider, ModelProvider
from .mem import Unsupported
from .fl import Wd

DRV = os.path.join(extract.VERIF, 'replay', 'driver.cpp')
SAN = ['-fsanitize=address', '-g1', '-O1', '-fno-omit-frame-pointer', '-w', '-fPIC', '-DNDEBUG']
ENV = dict(os.environ, TZ='UTC', ASAN_OPTIONS='detect_leaks=0:exitcode=77:alloc_dealloc_mismatch=0:allocator_may_return_null=0:max_allocation_size_mb=3000:handle_abort=0:symbolize=0:hard_rss_limit_mb=6000:detect_stack_use_after_return=0:allocator_release_to_os_interval_ms=-1')


def build():
    """executable of the current tree (cached by content hash)"""
    h = hashlib.sha256((extract.tree_hash() + open(DRV).read()).encode()).hexdigest()[:24]
    os.makedirs(extract.CACHE, exist_ok=True)
    exe = os.path.join(extract.CACHE, h + '.exe')
    if os.path.exists(exe):
        return exe
    tmp = tempfile.mkdtemp(prefix='exe', dir=extract.CACHE)
    try:
        def one(i_f):
            i, f = i_f
            o = '%s/%d.o' % (tmp, i)
            extract.run([extract.CLANG, '-std=gnu++11'] + SAN + ['-c', f, '-o', o] + extract.incflags())
            return o
        with ThreadPoolExecutor(8) as ex:
            objs = list(ex.map(one, enumerate(extract.sources())))
        objs.append(tmp + '/headers.o')
        extract.run([extract.CLANG, '-std=gnu++11', '-femit-all-decls'] + SAN + ['-O0', '-c', extract.header_unit(tmp), '-o', objs[-1]] + extract.incflags())
        extract.run([extract.CLANG, '-std=gnu++17'] + SAN + ['-c', DRV, '-o', tmp + '/drv.o'])
        extract.run([extract.CLANG, '-fsanitize=address', '-rdynamic'] + objs + [tmp + '/drv.o', '-ldl', '-o', tmp + '/exe'])
        os.replace(tmp + '/exe', exe)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    olds = sorted([os.path.join(extract.CACHE, f) for f in os.listdir(extract.CACHE) if f.endswith('.exe')], key=os.path.getmtime)
    for f in olds[:-4]:
        try:
            os.unlink(f)
        except OSError:
            pass
    return exe


class Case:
    """one concrete input of a contract, with the specified outcome"""
    pass


def make_case(c, provider):
    """-> Case or None when the values are not admissible / not specified"""
    S = ConSetup(provider)
    try:
        args = list(c.setup(S))
    except Reject:
        return None
    k = Case()
    k.c, k.S, k.args = c, S, args
    k.pre = S.mem
    W = ConWorld({i: b.copy() for i, b in S.mem.items()})
    W.inputs = S
    try:
        k.exp = ('ret', c.spec(W, *args))
    except Throw as t:
        k.exp = ('exc', t.name)
    except Reject:
        return None
    except (Unsupported, OverflowError, MemoryError):
        return None
    k.W = W
    k.desc = S.desc
    return k


def u32(v):
    return struct.pack('<I', v & 0xffffffff)


def u64(v):
    return struct.pack('<Q', v & 0xffffffffffffffff)


def s_(x):
    x = x.encode()
    return u32(len(x)) + x


def tgt(p):
    if isinstance(p.b, str):
        return u32(2) + s_(p.b) + u64(p.off)
    return u32(1) + u32(p.b) + u64(p.off)


def encode(k, cid):
    c = k.c
    o = [u32(cid), s_(c.fn), u32(3 if c.ret in ('f64', 'f32') else 0)]
    bl = [b for b in k.pre.values() if not isinstance(b.id, str)]
    gl = [b for b in k.pre.values() if isinstance(b.id, str)]
    o.append(u32(len(bl)))
    for b in bl:
        o += [u32(b.id), u32(b.size), bytes(b.data), u32(len(b.rel))]
        for off, r in b.rel.items():
            o.append(u32(off))
            o.append(tgt(CPtr(r[1], r[2])))
    o.append(u32(len(gl)))
    for b in gl:
        o += [s_(b.id), u32(b.size)]
        r = b.rel.get(0)
        o.append(tgt(CPtr(r[1], r[2])) if r else u32(0) + u64(int.from_bytes(b.data[:8], 'little')))
    o.append(u32(len(k.args)))
    for a in k.args:
        if isinstance(a, bool):
            o += [u32(0), u64(int(a))]
        elif isinstance(a, int):
            o += [u32(0), u64(a)]
        elif isinstance(a, CF):
            o += [u32(3), u64(a.bits)]
        elif isinstance(a, CPtr):
            o.append(u32(0) + u64(0) if a.b == 0 else tgt(a))
        else:
            raise Unsupported('argument %r' % (a,))
    o.append(u32(len(gl)))
    for b in gl:
        o += [s_(b.id), u32(b.size)]
    return b''.join(o)


class Res:
    pass


class Rd:
    def __init__(self, b):
        self.b, self.o = b, 0

    def w(self):
        v = struct.unpack_from('<I', self.b, self.o)[0]
        self.o += 4
        return v

    def q(self):
        v = struct.unpack_from('<Q', self.b, self.o)[0]
        self.o += 8
        return v

    def s(self):
        n = self.w()
        v = self.b[self.o:self.o + n]
        self.o += n
        return v.decode(errors='replace')

    def raw(self, n):
        v = self.b[self.o:self.o + n]
        self.o += n
        return v

    def ref(self):
        k = self.w()
        if k == 0:
            v = self.q()
            return CNULL if v == 0 else CPtr(-1, v)
        if k == 1:
            b = self.w()
            return CPtr(b, self.q())
        s = self.s()
        return CPtr(s, self.q())


def run(exe, cases, timeout=600, isolate=False):
    """-> list of Res per case (None if the driver gave nothing)"""
    if not cases:
        return []
    tmp = tempfile.mkdtemp(prefix='run', dir=extract.CACHE)
    out = [None] * len(cases)
    try:
        with open(tmp + '/in', 'wb') as f:
            f.write(u32(len(cases)))
            for i, k in enumerate(cases):
                e = encode(k, i)
                f.write(u32(len(e)))
                f.write(e)
        try:
            subprocess.run([exe, tmp + '/in', tmp + '/out', tmp + '/log', '1' if isolate else '0'], timeout=timeout, env=ENV, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, cwd=tmp)
        except subprocess.TimeoutExpired:
            pass
        data = open(tmp + '/out', 'rb').read() if os.path.exists(tmp + '/out') else b''
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    r = Rd(data)
    try:
        while r.o < len(data):
            m = r.w()
            x = Res()
            i = r.w()
            if m == 0x44454144:
                x.dead = r.w()
                x.log = r.s()
                assert r.w() == 0x454e4421
                out[i] = x
                continue
            assert m == 0x52455355
            x.dead = None
            x.exc = r.s()
            x.rv = r.q()
            x.ptr = r.ref()
            x.mem = {}
            for _ in range(r.w()):
                bid = r.w()
                alive = r.w()
                size = r.w()
                b = CBlk(bid, 0)
                b.size = size
                b.alive = bool(alive)
                if alive:
                    b.data = bytearray(r.raw(size))
                    for _ in range(r.w()):
                        off = r.w()
                        p = r.ref()
                        b.rel[off] = ('s' if isinstance(p.b, str) else 'b', p.b, p.off)
                x.mem[bid] = b
            gl = [b for b in cases[i].pre.values() if isinstance(b.id, str)]
            n = r.w()
            for j in range(n):
                v = r.q()
                p = r.ref()
                b = gl[j].copy()
                b.rel = {}
                b.data[:] = struct.pack('<Q', v)[:b.size]
                if p.b not in (0, -1):
                    b.rel[0] = ('s' if isinstance(p.b, str) else 'b', p.b, p.off)
                x.mem[b.id] = b
            assert r.w() == 0x454e4421
            out[i] = x
    except (struct.error, AssertionError):
        pass
    return out


def excname(tn):
    # PN13DotnetLibrary25IndexOutOfRangeExceptionE -> IndexOutOfRangeException
    import re
    m = re.match(r'P?(?:N13DotnetLibrary)?(\d+)(\w+?)E?$', tn)
    if m:
        n = int(m.group(1))
        return m.group(2)[:n]
    return tn


DEADTXT = {77: 'memory error (AddressSanitizer)', 1000 + 14: 'does not terminate', 1000 + 8: 'arithmetic trap', 1000 + 11: 'segmentation fault', 1000 + 6: 'abort'}


def check_case(k, x):
    """-> list of differences between the run and the contract ([] = agreement, None = no verdict)"""
    if x is None:
        return None
    if x.dead is not None:
        if x.dead == 90:
            return None
        if 'allocation-size-too-big' in x.log or 'out-of-memory' in x.log or 'exceeds maximum supported size' in x.log or 'rss limit' in x.log or 'Failed to mmap' in x.log:
            return None
        import re
        m = re.search(r'ERROR: AddressSanitizer: (.*)', x.log)
        return ['the call does not complete: %s%s' % (DEADTXT.get(x.dead, 'exit %d' % x.dead), ' ' + m.group(1)[:200] if m else '')]
    c = k.c
    out = []
    exp = k.exp
    got = ('exc', excname(x.exc)) if x.exc else ('ret', None)
    if exp[0] != got[0] or (exp[0] == 'exc' and exp[1] != got[1]):
        a = 'returns' if got[0] == 'ret' else 'throws ' + got[1]
        b = 'returns' if exp[0] == 'ret' else 'throws ' + exp[1]
        return ['the code %s where the contract says it %s' % (a, b)]
    P = ConWorld(x.mem)
    P.inputs = k.S
    from .verify import SpecAny
    if exp[0] == 'ret' and exp[1] is not SpecAny and c.ret != 'void':
        v = lift(x.rv, x.ptr, c.ret)
        cmatch(P, exp[1], v, c.ret, 'result', out, k)
    # frame
    for bid, e in k.W.mem.items():
        g = x.mem.get(bid)
        if bid in k.W.hidden or g is None:
            continue
        if g.alive != e.alive:
            out.append('memory block %s is %s' % (bid, 'released' if not g.alive else 'not released'))
            continue
        if not g.alive:
            continue
        rels = set(e.rel) | set(g.rel)
        for o in sorted(rels):
            a, b = e.rel.get(o), g.rel.get(o)
            if a is None or b is None:
                continue_int = a is None and bytes(e.data[o:o + 8]) == bytes(g.data[o:o + 8])
                if not continue_int and not unused(k, bid, o):
                    out.append('pointer field at %s in block %d: %s instead of %s' % (o, bid, b, a))
            elif tuple(a) != tuple(b):
                out.append('pointer field at %s in block %d: %s instead of %s' % (o, bid, b, a))
        n = min(e.size, g.size)
        if bytes(e.data[:n]) != bytes(g.data[:n]):
            for o in range(n):
                if e.data[o] != g.data[o] and not any(r <= o < r + 8 for r in rels):
                    out.append('byte %d of block %s (%s): %d instead of %d' % (o, bid, getattr(k.pre.get(bid), 'name', '') or '', g.data[o], e.data[o]))
                    break
    for p, d in k.W.built:
        k.inplace = p.b
        cmatch(P, d, p, 'ptr', 'object', out, k)
        k.inplace = None
    for v in k.W.views:
        
        try:
            v(P, ConCheck(out))
        except (Reject, KeyError, struct.error, Unsupported):
            out.append('unreadable post state')
    return out


class ConCheck:
    def __init__(self, out):
        self.out = out

    def __call__(self, name, ok):
        if not ok:
            self.out.append(name)

    def all(self, name, lo, hi, pred):
        for k in range(lo, hi):
            if not pred(k):
                self.out.append('%s [%d]' % (name, k))
                return


def unused(k, bid, o):
    return False


def lift(rv, ptr, ty):
    if ty in ('ptr', 'str'):
        return ptr
    if ty == 'bool':
        return bool(rv & 255)
    if ty == 'f64':
        return CF(64, rv)
    if ty == 'f32':
        return CF(32, rv & 0xffffffff)
    w = int(ty[1:])
    v = rv & ((1 << w) - 1)
    if ty[0] == 'i' and v >> (w - 1):
        v -= 1 << w
    return v


def isnan(f):
    v = f.val()
    return v != v


def cmatch(P, d, v, ty, name, out, k):
    try:
        _cmatch(P, d, v, ty, name, out, k)
    except (Reject, KeyError, struct.error, Unsupported):
        out.append(name + ': unreadable')


def _cmatch(P, d, v, ty, name, out, k):
    if d is None:
        return
    if isinstance(d, AnyOf):
        if not d.pred(P, v):
            out.append('%s: %s does not satisfy the contract' % (name, v.val() if isinstance(v, CF) else v))
        return
    if isinstance(d, NewStr):
        if v.b == 0:
            out.append(name + ': is null')
            return
        s = rdstr(P, v)
        n = d.length
        ch = [d.char(i) for i in range(n)]
        if s is None or s != ch:
            out.append('%s: string %r instead of %r' % (name, txt(s), txt(ch)))
        return
    if isinstance(d, NewMem):
        if v.b == 0:
            if d.size <= 1 << 30:
                out.append(name + ': is null')
        elif v.b in k.pre:
            out.append(name + ': is not new memory')
        elif v.b in P.mem:
            b = P.mem[v.b]
            if b.size < d.size or any(b.data[:d.size]):
                out.append(name + ': is not zeroed memory of %d bytes' % d.size)
        return
    if isinstance(d, NewObj):
        if v.b == 0 or P.vtable_of(v) != '_ZTVN13DotnetLibrary%d%sE' % (len(d.cls), d.cls):
            out.append('%s: is not a %s' % (name, d.cls))
            return
        for off, (t, val) in d.cells.items():
            _cmatch(P, val, P.ld(v, off, t), t, '%s field at %d' % (name, off), out, k)
        return
    if isinstance(d, NewArr):
        if v.b == 0 or P.vtable_of(v) != '_ZTVN13DotnetLibrary5ArrayE':
            out.append('%s: is not an array' % name)
            return
        if v.b in k.pre and v.b != k.inplace:
            out.append('%s: is not a new array' % name)
        for off, val in ((8, d.dtype), (12, d.dims[0]), (16, d.dims[1]), (20, d.dims[2]), (24, d.rank), (28, d.total)):
            g = P.ld(v, off, 'i32')
            if g != val:
                out.append('%s shape field at %d: %d instead of %d' % (name, off, g, val))
                return
        if P.ld(v, 40, 'u8') != 1:
            out.append('%s does not own its storage' % name)
        q = P.ld(v, 32, 'ptr')
        if d.total and q.b in k.pre:
            out.append('%s elements are not new memory' % name)
        for i in range(d.total):
            _cmatch(P, d.elem(i), P.ld(q, i * d.w, d.kind), d.kind, '%s element %d' % (name, i), out, k)
        return
    if isinstance(d, F):
        d = d.v
    if isinstance(d, Wd):
        d = d.sgn() if ty[0] == 'i' else d.t
    if isinstance(d, CF):
        if not (v.bits == d.bits or (isnan(v) and isnan(d))):
            out.append('%s: %r instead of %r' % (name, v.val(), d.val()))
        return
    if isinstance(d, CPtr):
        if v != d:
            out.append('%s: %s instead of %s' % (name, v, d))
        return
    if isinstance(d, bool):
        if bool(v) != d:
            out.append('%s: %s instead of %s' % (name, bool(v), d))
        return
    if isinstance(v, CPtr):
        out.append('%s: %s instead of %s' % (name, v, d))
        return
    if v != d:
        out.append('%s: %s instead of %s' % (name, v, d))


def rdstr(P, v):
    if P.vtable_of(v) != '_ZTVN13DotnetLibrary6StringE':
        return None
    n = P.ld(v, 16, 'i32')
    q = P.ld(v, 8, 'ptr')
    if n < 0 or n > MAXCON // 4:
        return None
    r = [P.ld(q, 4 * i, 'i32') for i in range(n)]
    if P.ld(q, 4 * n, 'i32') != 0:
        return r + ['no terminator']
    return r


from .setup import MAXCON


def txt(s):
    if s is None:
        return None
    return ''.join(chr(c) if isinstance(c, int) and 0 <= c < 0x110000 else '<%s>' % c for c in s)


def constants(mod, fn, depth=3):
    """integer constants of a function and its callees"""
    import re
    out, seen = set(), set()
    if mod is None:
        return []

    def go(name, d):
        name = mod.aliases.get(name, name)
        f = mod.funcs.get(name)
        if f is None or name in seen or len(seen) > 60:
            return
        seen.add(name)
        for ins in f.blocks.values():
            for i in ins:
                t = i if isinstance(i, str) else i.text
                if re.search(r'getelementptr|alloca|= load|= landingpad|extractvalue|insertvalue', t):
                    continue
                t = re.sub(r',? align \d+', '', re.sub(r'\(\d+\)', '', t.split(', !dbg')[0]))
                for x in re.findall(r'(?<![\w.%@!#\[\(])-?\d+(?![\w.])', t):
                    out.add(int(x))
                if d:
                    for g in re.findall(r'@("[^"]*"|[-\w$.]+)\(', t):
                        go(g.strip('"'), d - 1)
    go(fn, depth)
    return sorted(out)


def cases_random(c, n, seed, big=None):
    """big: constants of the code; long contents with few differences and sizes around the constants"""
    out = []
    rng = random.Random('%s/%d' % (c.id, seed))
    tries = 0
    t0 = time.time()
    while len(out) < n and tries < n * 12 and time.time() - t0 < 60:
        tries += 1
        k = make_case(c, RandProvider(rng) if big is None else BigProvider(rng, big))
        if k is not None:
            out.append(k)
    return out


def cases_models(c, models, seed):
    out = []
    rng = random.Random(seed)
    for S, m, name in models[:12]:
        if m is None:
            continue
        for mut in (0, 0, 0.2, 0.3, 0.5, 0.5, 0.7):
            try:
                k = make_case(c, ModelProvider(m, S, rng, mut))
            except Exception:
                k = None
            if k is not None:
                out.append(k)
    return out


def find(exe, c, cases):
    """first disagreement -> (case, differences) or None ; also number of verdicts"""
    n = 0
    for i in range(0, len(cases), 200):
        part = cases[i:i + 200]
        res = run(exe, part, isolate=bool(c.fork))
        for k, x in zip(part, res):
            d = check_case(k, x)
            if d is None:
                continue
            n += 1
            if d:
                return k, d, n, x
    return None, None, n, None


def describe(k):
    out = []
    for n, v in k.desc:
        if isinstance(v, list):
            if n.startswith('s') and all(isinstance(x, int) and 0 <= x < 0x110000 for x in v):
                out.append('%s=%r' % (n, ''.join(map(chr, v)).rstrip('\0')))
            else:
                out.append('%s=%s' % (n, [x.val() if isinstance(x, CF) else x for x in v[:32]]))
        else:
            out.append('%s=%s' % (n, v))
    return ', '.join(out)


class FixedProvider:
    """recorded values"""

    def __init__(self, vals):
        self.v = vals
        self.bufs = []

    def choice(self, name, n):
        return self.v.get('choice:' + name, 0)

    def int(self, name, lo, hi, size):
        return self.v[name]

    def bool(self, name):
        return bool(self.v[name])

    def bits(self, name, w):
        return self.v[name]

    def fill(self, name, ty, n, lo, hi):
        return list(self.v[name])[:n]


def values(k):
    return k.S.rec
