"""Parser for the subset of textual LLVM IR that clang emits for the library, plus data layout."""
import re

TOK = re.compile(r'''
   (?P<str>c?"(?:[^"\\]|\\.)*")
 | (?P<loc>%(?:"[^"]*"|[-a-zA-Z$._0-9]+))
 | (?P<glb>@(?:"[^"]*"|[-a-zA-Z$._0-9]+))
 | (?P<md>!(?:[-a-zA-Z$._0-9]*))
 | (?P<attr>\#[0-9]+)
 | (?P<num>0x[KLMHR]?[0-9A-Fa-f]+|-?[0-9]+(?:\.[0-9]+(?:e[+-]?[0-9]+)?)?)
 | (?P<word>[a-zA-Z_$.][-a-zA-Z_$.0-9]*)
 | (?P<dots>\.\.\.)
 | (?P<p><\{|\}>|[=,(){}\[\]<>*:|])
 | (?P<ws>\s+)
''', re.X)


class Unsupported(Exception):
    pass


def tokenize(s):
    out = []
    pos = 0
    n = len(s)
    while pos < n:
        if s[pos] == ';':
            break
        m = TOK.match(s, pos)
        if not m:
            raise Unsupported('token at: ' + s[pos:pos + 40])
        if m.lastgroup != 'ws':
            out.append((m.lastgroup, m.group()))
        pos = m.end()
    return out


# ---- types: ('i',n) ('ptr',) ('f32',) ('f64',) ('void',) ('arr',n,t) ('st',[types],packed) ('named',name)
class Module:
    def __init__(self):
        self.types = {}
        self.globals = {}      # name -> Global
        self.aliases = {}
        self.funcs = {}        # name -> Function (defined)
        self.decls = {}        # name -> rettype
        self.md = {}
        self._size = {}

    def resolve(self, t):
        while t[0] == 'named':
            t = self.types[t[1]]
        return t

    def align(self, t):
        t = self.resolve(t)
        k = t[0]
        if k == 'i':
            return max(1, (t[1] + 7) // 8) if t[1] <= 64 else 16
        if k in ('ptr', 'f64'):
            return 8
        if k == 'f32':
            return 4
        if k == 'arr':
            return self.align(t[2])
        if k == 'st':
            if t[2]:
                return 1
            return max([self.align(x) for x in t[1]] or [1])
        raise Unsupported('align %r' % (t,))

    def size(self, t):
        t = self.resolve(t)
        k = t[0]
        if k == 'i':
            return max(1, (t[1] + 7) // 8)
        if k in ('ptr', 'f64'):
            return 8
        if k == 'f32':
            return 4
        if k == 'arr':
            return t[1] * self.size(t[2])
        if k == 'st':
            offs, tot = self.layout(t)
            return tot
        raise Unsupported('size %r' % (t,))

    def layout(self, t):
        t = self.resolve(t)
        off = 0
        offs = []
        for x in t[1]:
            if not t[2]:
                a = self.align(x)
                off = (off + a - 1) // a * a
            offs.append(off)
            off += self.size(x)
        if not t[2]:
            a = self.align(t)
            off = (off + a - 1) // a * a
        return offs, off

    def fn(self, name):
        name = self.aliases.get(name, name)
        return self.funcs.get(name)

    def line_of(self, inst):
        if inst.dbg is None:
            return None
        d = self.md.get(inst.dbg)
        if not d:
            return None
        m = re.search(r'line: (\d+)', d)
        return int(m.group(1)) if m else None


class Global:
    __slots__ = ('name', 'type', 'init', 'const', 'external')


class Function:
    __slots__ = ('name', 'ret', 'params', 'blocks', 'order', 'entry', 'loops', 'rpo', 'attrs', 'file', 'vararg', '_cfg')

    def __init__(self):
        self._cfg = None


class Inst:
    __slots__ = ('op', 'res', 'a', 'dbg', 'text')

    def __repr__(self):
        return self.text


# operands: ('const',type,pyvalue) ('loc',type,name) ('glb',name) ('null',) ('undef',type) ('zero',type)
#           ('cgep',type,base,idxs) ('agg',type,[ops]) ('cstr', type, bytes) ('ccast',op,operand,type)
PARAM_ATTRS = {'noundef', 'nonnull', 'noalias', 'nocapture', 'readonly', 'writeonly', 'signext', 'zeroext', 'returned',
               'immarg', 'inreg', 'readnone', 'nofree', 'dead_on_unwind', 'writable', 'noreturn', 'unnamed_addr', 'local_unnamed_addr'}
PAREN_ATTRS = {'sret', 'byval', 'align', 'dereferenceable', 'dereferenceable_or_null', 'range', 'elementtype', 'initializes'}
FLAGS = {'nsw', 'nuw', 'exact', 'inbounds', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'disjoint', 'nneg', 'volatile',
         'tail', 'musttail', 'notail'}


class P:
    def __init__(self, toks, mod):
        self.t = toks
        self.i = 0
        self.mod = mod

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else (None, None)

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def acc(self, v):
        if self.peek()[1] == v:
            self.i += 1
            return True
        return False

    def exp(self, v):
        x = self.next()
        if x[1] != v:
            raise Unsupported('expected %r got %r in %r' % (v, x, self.t))
        return x

    def type(self):
        k, v = self.next()
        if v == '{' or v == '<{':
            elts = []
            close = '}' if v == '{' else '}>'
            if not self.acc(close):
                while True:
                    elts.append(self.type())
                    if self.acc(close):
                        break
                    self.exp(',')
            t = ('st', tuple(elts), v == '<{')
        elif v == '[':
            n = int(self.next()[1])
            self.exp('x')
            e = self.type()
            self.exp(']')
            t = ('arr', n, e)
        elif v == '<':
            raise Unsupported('vector type')
        elif k == 'loc':
            t = ('named', v[1:].strip('"'))
        elif k == 'word':
            if re.fullmatch(r'i\d+', v):
                t = ('i', int(v[1:]))
            elif v == 'ptr':
                t = ('ptr',)
            elif v == 'double':
                t = ('f64',)
            elif v == 'float':
                t = ('f32',)
            elif v == 'void':
                t = ('void',)
            elif v == 'label':
                t = ('label',)
            elif v == 'metadata':
                t = ('metadata',)
            elif v == 'opaque':
                t = ('opaque',)
            else:
                raise Unsupported('type ' + v)
        else:
            raise Unsupported('type tok %r in %r' % (v, self.t))
        # function type suffix
        if self.peek()[1] == '(' and t[0] != 'label':
            # only in calls "void (ptr, ...)" : consume
            save = self.i
            try:
                self.next()
                depth = 1
                while depth:
                    x = self.next()[1]
                    if x == '(':
                        depth += 1
                    elif x == ')':
                        depth -= 1
                t = ('fn', t)
            except IndexError:
                self.i = save
        return t

    def attrs(self):
        while True:
            k, v = self.peek()
            if k == 'word' and v in PARAM_ATTRS:
                self.i += 1
            elif k == 'word' and v in PAREN_ATTRS:
                self.i += 1
                if self.peek()[1] == '(':
                    self.skip_paren()
                elif self.peek()[0] == 'num':
                    self.i += 1
            elif k == 'attr':
                self.i += 1
            else:
                break

    def skip_paren(self):
        self.exp('(')
        d = 1
        while d:
            x = self.next()[1]
            if x == '(':
                d += 1
            elif x == ')':
                d -= 1

    def typed(self):
        t = self.type()
        self.attrs()
        return self.value(t)

    def value(self, t):
        k, v = self.next()
        if k == 'loc':
            return ('loc', t, v[1:].strip('"'))
        if k == 'glb':
            return ('glb', v[1:].strip('"'))
        if k == 'num':
            rt = self.mod.resolve(t)
            if rt[0] == 'i':
                n = int(v)
                w = rt[1]
                if w == 1:
                    return ('const', t, bool(n))
                n &= (1 << w) - 1
                if n >= 1 << (w - 1):
                    n -= 1 << w
                return ('const', t, n)
            return ('const', t, v)      # float literal text
        if k == 'word':
            if v == 'true':
                return ('const', t, True)
            if v == 'false':
                return ('const', t, False)
            if v == 'null':
                return ('null',)
            if v in ('undef', 'poison'):
                return ('undef', t)
            if v == 'zeroinitializer':
                return ('zero', t)
            if v == 'getelementptr':
                while self.peek()[1] in FLAGS:
                    self.i += 1
                if self.peek()[1] == 'inrange':
                    self.i += 1
                    self.skip_paren()
                self.exp('(')
                st = self.type()
                self.exp(',')
                base = self.typed()
                idx = []
                while self.acc(','):
                    if self.peek()[1] == 'inrange':
                        self.i += 1
                        if self.peek()[1] == '(':
                            self.skip_paren()
                    idx.append(self.typed())
                self.exp(')')
                return ('cgep', st, base, idx)
            if v in ('bitcast', 'ptrtoint', 'inttoptr', 'trunc', 'addrspacecast'):
                self.exp('(')
                o = self.typed()
                self.exp('to')
                tt = self.type()
                self.exp(')')
                return ('ccast', v, o, tt)
        if k == 'str' and v.startswith('c"'):
            raw = v[2:-1]
            b = bytearray()
            i = 0
            while i < len(raw):
                if raw[i] == '\\':
                    b.append(int(raw[i + 1:i + 3], 16))
                    i += 3
                else:
                    b.append(ord(raw[i]))
                    i += 1
            return ('cstr', t, bytes(b))
        if v in ('[', '{', '<{'):
            close = {'[': ']', '{': '}', '<{': '}>'}[v]
            ops = []
            if not self.acc(close):
                while True:
                    ops.append(self.typed())
                    if self.acc(close):
                        break
                    self.exp(',')
            return ('agg', t, ops)
        raise Unsupported('value %r in %r' % (v, self.t))


BINOPS = {'add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr',
          'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
CASTS = {'sext', 'zext', 'trunc', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'fpext', 'fptrunc', 'bitcast', 'ptrtoint', 'inttoptr'}


def parse_inst(line, mod):
    ins = Inst()
    ins.text = line.strip()
    ins.dbg = None
    m = re.search(r', !dbg !(\d+)', line)
    if m:
        ins.dbg = int(m.group(1))
        line = line[:m.start()] + line[m.end():]
    line = re.sub(r'(, ![-a-zA-Z_.]+ ![0-9]+)+\s*$', '', line)
    p = P(tokenize(line), mod)
    ins.res = None
    if p.peek()[0] == 'loc' and p.peek(1)[1] == '=':
        ins.res = p.next()[1][1:].strip('"')
        p.next()
    op = p.next()[1]
    while op in ('tail', 'musttail', 'notail'):
        op = p.next()[1]
    ins.op = op
    flags = set()

    def fl():
        while p.peek()[1] in FLAGS:
            flags.add(p.next()[1])
    if op in BINOPS:
        fl()
        t = p.type()
        a = p.value(t)
        p.exp(',')
        b = p.value(t)
        ins.a = (t, a, b, flags)
    elif op == 'fneg':
        fl()
        t = p.type()
        ins.a = (t, p.value(t))
    elif op in CASTS:
        fl()
        t = p.type()
        a = p.value(t)
        p.exp('to')
        t2 = p.type()
        ins.a = (t, a, t2)
    elif op in ('icmp', 'fcmp'):
        fl()
        pred = p.next()[1]
        t = p.type()
        a = p.value(t)
        p.exp(',')
        b = p.value(t)
        ins.a = (pred, t, a, b)
    elif op == 'alloca':
        t = p.type()
        n = None
        if p.acc(','):
            if p.peek()[1] != 'align':
                n = p.typed()
        ins.a = (t, n)
    elif op == 'load':
        fl()
        t = p.type()
        p.exp(',')
        ins.a = (t, p.typed())
    elif op == 'store':
        fl()
        v = p.typed()
        tv = v[1] if v[0] in ('loc', 'const', 'undef', 'zero', 'agg') else ('ptr',)
        p.exp(',')
        ins.a = (tv, v, p.typed())
    elif op == 'getelementptr':
        fl()
        t = p.type()
        p.exp(',')
        base = p.typed()
        idx = []
        while p.acc(','):
            idx.append(p.typed())
        ins.a = (t, base, idx)
    elif op == 'phi':
        fl()
        t = p.type()
        inc = []
        while True:
            p.exp('[')
            v = p.value(t)
            p.exp(',')
            b = p.next()[1][1:].strip('"')
            p.exp(']')
            inc.append((v, b))
            if not p.acc(','):
                break
        ins.a = (t, inc)
    elif op == 'select':
        fl()
        c = p.typed()
        p.exp(',')
        t = p.type()
        a = p.value(t)
        p.exp(',')
        t2 = p.type()
        b = p.value(t2)
        ins.a = (c, t, a, b)
    elif op == 'br':
        if p.peek()[1] == 'label':
            p.next()
            ins.a = (None, p.next()[1][1:].strip('"'), None)
        else:
            c = p.typed()
            p.exp(',')
            p.exp('label')
            l1 = p.next()[1][1:].strip('"')
            p.exp(',')
            p.exp('label')
            l2 = p.next()[1][1:].strip('"')
            ins.a = (c, l1, l2)
    elif op == 'switch':
        t = p.type()
        v = p.value(t)
        p.exp(',')
        p.exp('label')
        d = p.next()[1][1:].strip('"')
        p.exp('[')
        cases = []
        while not p.acc(']'):
            ct = p.type()
            cv = p.value(ct)
            p.exp(',')
            p.exp('label')
            cases.append((cv[2], p.next()[1][1:].strip('"')))
        ins.a = (t, v, d, cases)
    elif op == 'ret':
        if p.peek()[1] == 'void':
            ins.a = (None, None)
        else:
            t = p.type()
            ins.a = (t, p.value(t))
    elif op in ('call', 'invoke'):
        fl()
        # cc / ret attrs
        while p.peek()[0] == 'word' and (p.peek()[1] in PARAM_ATTRS or p.peek()[1] in PAREN_ATTRS):
            p.attrs()
        rt = p.type()
        if rt[0] == 'fn':
            rt = rt[1]
        callee = p.value(('ptr',))
        p.exp('(')
        args = []
        if not p.acc(')'):
            while True:
                t = p.type()
                p.attrs()
                if t[0] == 'metadata':
                    d = 0
                    while not (d == 0 and p.peek()[1] in (',', ')')):
                        x = p.next()[1]
                        d += (x == '(') - (x == ')')
                    args.append(None)
                else:
                    args.append((t, p.value(t)))
                if p.acc(')'):
                    break
                p.exp(',')
        p.attrs()
        norm = unw = None
        if op == 'invoke':
            p.exp('to')
            p.exp('label')
            norm = p.next()[1][1:].strip('"')
            p.exp('unwind')
            p.exp('label')
            unw = p.next()[1][1:].strip('"')
        ins.a = (rt, callee, args, norm, unw)
    elif op == 'landingpad':
        p.type()
        cl = []
        while p.i < len(p.t):
            w = p.next()[1]
            if w == 'cleanup':
                cl.append(('cleanup',))
            elif w == 'catch':
                cl.append(('catch', p.typed()))
            elif w == 'filter':
                cl.append(('filter', p.typed()))
        ins.a = cl
    elif op == 'extractvalue':
        v = p.typed()
        idx = []
        while p.acc(','):
            idx.append(int(p.next()[1]))
        ins.a = (v, idx)
    elif op == 'insertvalue':
        v = p.typed()
        p.exp(',')
        w = p.typed()
        idx = []
        while p.acc(','):
            idx.append(int(p.next()[1]))
        ins.a = (v, w, idx)
    elif op == 'resume':
        ins.a = p.typed()
    elif op == 'unreachable':
        ins.a = ()
    elif op == 'freeze':
        ins.a = p.typed()
    else:
        raise Unsupported('inst ' + op)
    return ins


def parse(path):
    mod = Module()
    lines = open(path, encoding='utf-8').read().split('\n')
    i = 0
    n = len(lines)
    # metadata first, types first
    body = []
    for l in lines:
        if l.startswith('%') and ' = type ' in l:
            name, rest = l.split(' = type ', 1)
            p = P(tokenize(rest), mod)
            mod.types[name[1:].strip('"')] = p.type()
        elif l.startswith('!'):
            m = re.match(r'!(\d+) = (.*)', l)
            if m:
                mod.md[int(m.group(1))] = m.group(2)
    mod.mutated = mutated_globals(lines)
    while i < n:
        l = lines[i]
        if l.startswith('@'):
            parse_global(l, mod)
        elif l.startswith('declare'):
            m = re.search(r'@("[^"]*"|[-\w$.]+)\(', l)
            mod.decls[m.group(1).strip('"')] = l
        elif l.startswith('define'):
            f = Function()
            m = re.search(r'@("[^"]*"|[-\w$.]+)\((.*)\)[^)]*$', l)
            head = l[:l.index('@' + m.group(1))]
            f.name = m.group(1).strip('"')
            # return type: last type token in head
            toks = tokenize(head[len('define'):])
            p = P(toks, mod)
            rt = None
            while p.i < len(p.t):
                k, v = p.peek()
                if k == 'word' and not (re.fullmatch(r'i\d+|ptr|double|float|void', v)):
                    p.i += 1
                    if p.peek()[1] == '(':
                        p.skip_paren()
                    elif v == 'align' or p.peek()[0] == 'num':
                        p.i += 1
                    continue
                rt = p.type()
            f.ret = rt
            # params
            sig = l[l.index('@' + m.group(1)) + 1 + len(m.group(1)):]
            toks = tokenize(sig[:sig.rindex('{')])
            p = P(toks, mod)
            p.exp('(')
            f.params = []
            f.vararg = False
            if not p.acc(')'):
                while True:
                    if p.acc('...'):
                        f.vararg = True
                        p.exp(')')
                        break
                    t = p.type()
                    p.attrs()
                    nm = p.next()[1][1:].strip('"') if p.peek()[0] == 'loc' else None
                    f.params.append((t, nm))
                    if p.acc(')'):
                        break
                    p.exp(',')
            mm = re.search(r'!dbg !(\d+)', l)
            f.file = None
            if mm and int(mm.group(1)) in mod.md:
                sp = mod.md[int(mm.group(1))]
                fm = re.search(r'file: !(\d+)', sp)
                lm = re.search(r'line: (\d+)', sp)
                if fm:
                    fd = mod.md.get(int(fm.group(1)), '')
                    fn = re.search(r'filename: "([^"]*)"', fd)
                    f.file = (fn.group(1) if fn else '?', int(lm.group(1)) if lm else 0)
            f.blocks = {}
            f.order = []
            cur = None
            # unnamed params/entry numbering
            cnt = 0
            for idx, (t, nm) in enumerate(f.params):
                if nm is None:
                    f.params[idx] = (t, str(cnt))
                if f.params[idx][1].isdigit():
                    cnt = int(f.params[idx][1]) + 1
            i += 1
            while lines[i] != '}':
                l = lines[i]
                if l and not l.startswith(' '):
                    lm = re.match(r'("[^"]*"|[-\w$.]+):', l)
                    cur = lm.group(1).strip('"')
                    f.blocks[cur] = []
                    f.order.append(cur)
                elif l.strip():
                    if cur is None:
                        cur = str(cnt)
                        f.blocks[cur] = []
                        f.order.append(cur)
                    # join continuation lines
                    full = l
                    st = l.strip()
                    if st.startswith('switch') or ' switch ' in st:
                        while ']' not in lines[i]:
                            i += 1
                            full += ' ' + lines[i].strip()
                    elif re.search(r'\binvoke\b', st) or re.search(r'= landingpad|landingpad ', st):
                        while i + 1 < n and re.match(r'\s{8,}', lines[i + 1]):
                            i += 1
                            full += ' ' + lines[i].strip()
                    f.blocks[cur].append(full)
                i += 1
            f.entry = f.order[0]
            f.loops = None
            mod.funcs[f.name] = f
        i += 1
    return mod


def cfg(f, mod):
    """Parses the body lazily and computes successors, RPO, natural loops."""
    if f._cfg:
        return f._cfg
    for _ in range(400):
        r = cfg_(f, mod)
        if not thread(f, *r):
            break
        f._cfg = None
    return f._cfg


def thread(f, blocks, succ, pred, idx, loops, live):
    """Short-circuit conditions: a block that only selects a truth value and branches on it is bypassed on the edges where that value is a constant.
    The same instructions are executed on every path; values are not changed."""
    uses = {}
    for b in blocks:
        for ins in blocks[b]:
            for r in inst_uses(ins):
                uses.setdefault(r, []).append((b, ins))
    done = False
    for m in list(blocks):
        if m not in idx or m in loops or m == f.entry:
            continue
        ins = blocks[m]
        t = ins[-1]
        if t.op != 'br' or t.a[0] is None or t.a[0][0] != 'loc':
            continue
        phis = [i for i in ins if i.op == 'phi']
        rest = [i for i in ins[:-1] if i.op != 'phi']
        neg = False
        c = t.a[0][2]
        if len(rest) == 1 and rest[0].op == 'xor' and rest[0].res == c and len(uses.get(c, ())) == 1:
            x = rest[0].a
            ops = [o for o in x if isinstance(o, tuple) and o and o[0] in ('loc', 'const')]
            if len(ops) == 2 and ops[0][0] == 'loc' and ops[1][0] == 'const' and ops[1][2] in (1, True, -1):
                neg, c = True, ops[0][2]
            else:
                continue
        elif rest:
            continue
        d = next((i for i in phis if i.res == c), None)
        tb, fb = t.a[1], t.a[2]
        if d is None or tb == fb or m in (tb, fb):
            continue
        if any(not (b == m or (b in (tb, fb) and i.op == 'phi')) for p in phis for b, i in uses.get(p.res, ())):
            continue
        if any(b == m and i.op == 'phi' for p in phis for b, i in uses.get(p.res, ())):
            continue
        # inside a target block, only the entries that come from m may use the values of m
        ok = True
        for b in (tb, fb):
            for i in blocks[b]:
                if i.op == 'phi':
                    for v, pb in i.a[1]:
                        if pb != m and v[0] == 'loc' and any(v[2] == p.res for p in phis):
                            ok = False
        if not ok:
            continue
        for v, p in list(d.a[1]):
            if v[0] != 'const' or p not in idx:
                continue
            to = tb if (bool(v[2]) != neg) else fb
            pt = blocks[p][-1]
            if pt.op != 'br' or p in pred[to] or (pt.a[0] is not None and pt.a[1] == pt.a[2]):
                continue
            at = {i.res: next(w for w, q in i.a[1] if q == p) for i in phis}
            for i in blocks[to]:
                if i.op != 'phi':
                    break
                w = next(w for w, q in i.a[1] if q == m)
                if w[0] == 'loc' and w[2] in at:
                    w = at[w[2]]
                i.a = (i.a[0], list(i.a[1]) + [(w, p)])
            pt.a = tuple(to if (k and x == m) else x for k, x in enumerate(pt.a))
            for i in phis:
                i.a = (i.a[0], [e for e in i.a[1] if e[1] != p])
            pred[to].append(p)
            pred[m].remove(p)
            done = True
        if done:
            return True
    return done


def cfg_(f, mod):
    if f._cfg:
        return f._cfg
    blocks = {}
    for b, ls in f.blocks.items():
        blocks[b] = [l if isinstance(l, Inst) else parse_inst(l, mod) for l in ls]
    f.blocks = blocks
    succ = {}
    for b, ins in blocks.items():
        t = ins[-1]
        if t.op == 'br':
            s = [t.a[1]] + ([t.a[2]] if t.a[2] else [])
        elif t.op == 'switch':
            s = [t.a[2]] + [c[1] for c in t.a[3]]
        elif t.op == 'invoke':
            s = [t.a[3], t.a[4]]
        else:
            s = []
        succ[b] = list(dict.fromkeys(s))
    # dfs
    seen = set()
    post = []
    stack = [(f.entry, iter(succ[f.entry]))]
    seen.add(f.entry)
    while stack:
        b, it = stack[-1]
        for s in it:
            if s not in seen:
                seen.add(s)
                stack.append((s, iter(succ[s])))
                break
        else:
            post.append(b)
            stack.pop()
    rpo = post[::-1]
    idx = {b: k for k, b in enumerate(rpo)}
    pred = {b: [] for b in rpo}
    for b in rpo:
        for s in succ[b]:
            pred[s].append(b)
    # dominators
    dom = {rpo[0]: rpo[0]}
    ch = True
    while ch:
        ch = False
        for b in rpo[1:]:
            nd = None
            for q in pred[b]:
                if q in dom:
                    if nd is None:
                        nd = q
                    else:
                        x, y = q, nd
                        while x != y:
                            while idx[x] > idx[y]:
                                x = dom[x]
                            while idx[y] > idx[x]:
                                y = dom[y]
                        nd = x
            if dom.get(b) != nd:
                dom[b] = nd
                ch = True

    def dominates(a, b):
        while True:
            if a == b:
                return True
            if b == rpo[0]:
                return False
            b = dom[b]
    loops = {}
    for b in rpo:
        for s in succ[b]:
            if idx[s] <= idx[b]:
                if not dominates(s, b):
                    raise Unsupported('irreducible loop in ' + f.name)
                body = loops.setdefault(s, {s})
                st = [b]
                while st:
                    x = st.pop()
                    if x not in body:
                        body.add(x)
                        st.extend(pred[x])
    # liveness (phi uses belong to the edge)
    use, dfn, phiuse = {}, {}, {}
    for b in rpo:
        u, d = set(), set()
        for ins in blocks[b]:
            if ins.op == 'phi':
                d.add(ins.res)
                for v, pb in ins.a[1]:
                    if v[0] == 'loc':
                        phiuse.setdefault((pb, b), set()).add(v[2])
                continue
            for r in inst_uses(ins):
                if r not in d:
                    u.add(r)
            if ins.res is not None:
                d.add(ins.res)
        use[b], dfn[b] = u, d
    live = {b: set(use[b]) for b in rpo}
    ch = True
    while ch:
        ch = False
        for b in reversed(rpo):
            o = set()
            for s in succ[b]:
                o |= live[s] | phiuse.get((b, s), set())
            n = use[b] | (o - dfn[b])
            if n != live[b]:
                live[b] = n
                ch = True
    f._cfg = (blocks, succ, pred, idx, loops, live)
    return f._cfg


def inst_uses(ins):
    out = []

    def go(x):
        if isinstance(x, tuple):
            if len(x) == 3 and x[0] == 'loc':
                out.append(x[2])
            else:
                for y in x:
                    go(y)
        elif isinstance(x, list):
            for y in x:
                go(y)
    go(ins.a)
    return out


def mutated_globals(lines):
    """globals some function other than the static initialisers writes directly"""
    out = set()
    cur = ''
    for l in lines:
        if l.startswith('define'):
            cur = re.search(r'@("[^"]*"|[-\w$.]+)\(', l).group(1)
            continue
        if cur.startswith('__cxx_global_var_init') or cur.startswith('_GLOBAL__sub_I'):
            continue
        t = l.strip()
        tgt = None
        if t.startswith('store '):
            d, parts = 0, ['']
            for ch in t:
                d += (ch in '([{<') - (ch in ')]}>')
                if ch == ',' and d == 0:
                    parts.append('')
                else:
                    parts[-1] += ch
            tgt = parts[1].strip()[4:] if len(parts) > 1 and '@' in parts[1] else None
        elif '@llvm.memcpy' in t or '@llvm.memset' in t or '@llvm.memmove' in t:
            m = re.search(r'@llvm\.mem\w+[^(]*\(ptr (?:\w+(?:\(\d+\)| \d+)? )*(@[-\w$.]+|getelementptr[^@]*@[-\w$.]+)', t)
            tgt = m.group(1) if m else None
        if tgt:
            m = re.search(r'@("[^"]*"|[-\w$.]+)', tgt)
            if m and not m.group(1).startswith('_ZGV'):
                out.add(m.group(1).strip('"'))
    return out


def parse_global(l, mod):
    m = re.match(r'@("[^"]*"|[-\w$.]+) = (.*)', l)
    name, rest = m.group(1).strip('"'), m.group(2)
    if ' alias ' in ' ' + rest:
        mm = re.search(r'@("[^"]*"|[-\w$.]+)\s*$', rest)
        mod.aliases[name] = mm.group(1).strip('"')
        return
    # drop comdat/align suffix
    g = Global()
    g.name = name
    mm = re.search(r'(?<![\w"])(constant|global) ', rest)
    g.const = mm.group(1) == 'constant'
    g.external = ' external ' in ' ' + rest[:mm.start()]
    body = rest[mm.end():]
    p = P(tokenize(body), mod)
    g.type = p.type()
    g.init = None if g.external else p.value(g.type)
    mod.globals[name] = g


if __name__ == '__main__':
    import sys, time
    t = time.time()
    m = parse(sys.argv[1])
    print(len(m.funcs), len(m.globals), time.time() - t)
    bad = 0
    for f in m.funcs.values():
        try:
            c = cfg(f, m)
        except Exception as e:
            bad += 1
            print(f.name, repr(e)[:300])
    print('bad', bad, time.time() - t)
    print(sum(len(f._cfg[4]) for f in m.funcs.values() if f._cfg), 'loops')
