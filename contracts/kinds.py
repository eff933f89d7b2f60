"""Representation predicates of the library's objects (preconditions) and their abstract views."""
from engine.world import *
from engine.world import raw

# data types of the element-type enumeration: name -> (number, element size, scalar type)
DT = {'Null': 0, 'Object': 1, 'Boolean': 2, 'Char': 3, 'SByte': 4, 'Byte': 5, 'Int16': 6, 'UInt16': 7, 'Int32': 8, 'UInt32': 9, 'Int64': 10, 'UInt64': 11, 'Single': 12, 'Double': 13,
      'Decimal': 14, 'DateTime': 15, 'TimeSpan': 16, 'String': 17}
ETY = {'Object': 'ptr', 'Boolean': 'u8', 'Char': 'i32', 'SByte': 'i8', 'Byte': 'u8', 'Int16': 'i16', 'UInt16': 'u16', 'Int32': 'i32', 'UInt32': 'u32', 'Int64': 'i64', 'UInt64': 'u64',
       'Single': 'f32', 'Double': 'f64', 'DateTime': 'i64', 'TimeSpan': 'i64', 'String': 'ptr', 'Decimal': 'ptr'}
MAXLEN = 2 ** 29 - 2


def string(S, name, n=None, maxlen=MAXLEN, text=None, lo=None, hi=None):
    """a well-formed String object"""
    if text is not None:
        n = len(text)
    if n is None:
        n = S.int(name + '.len', 'i32', 0, maxlen, size=True)
    p = S.obj(24, name, 'String')
    if text is not None:
        d = S.buf('s_' + name, 'i32', n + 1, vals=[ord(c) for c in text] + [0])
    else:
        d = S.buf('s_' + name, 'i32', n + 1, lo, hi)
        S.terminate(d, n)
    S.set(p, 8, 'ptr', d)
    S.set(p, 16, 'i32', n)
    S.set(p, 20, 'u8', 1)
    return p


def slen(W, p):
    return W.ld(p, 16, 'i32')


def sdata(W, p):
    return W.ld(p, 8, 'ptr')


def sch(W, p):
    """character reader of a String"""
    return W.reader(W.ld(p, 8, 'ptr'), 'i32')


def array1(S, name, dt, n=None, maxn=None, lo=None, hi=None):
    """a well-formed one-dimensional array of scalars"""
    return array(S, name, dt, 1, [n], lo=lo, hi=hi)


def array(S, name, dt, rank, dims=None, lo=None, hi=None, cap=2 ** 31 - 1):
    ty = ETY[dt]
    w = TYSIZE[ty]
    ds = []
    for i in range(rank):
        d = dims[i] if dims else None
        if d is None:
            d = S.int('%s.d%d' % (name, i + 1), 'i32', 0, cap // w if rank == 1 else 2 ** 31 - 1, size=True)
        ds.append(d)
    tot = ds[0]
    for d in ds[1:]:
        tot = tot * d
    if rank > 1:
        S.assume(tot <= cap // w)
    p = S.obj(48, name, 'Array')
    S.set(p, 8, 'i32', DT[dt])
    for i in range(3):
        S.set(p, 12 + 4 * i, 'i32', ds[i] if i < rank else -1)
    S.set(p, 24, 'i32', rank)
    S.set(p, 28, 'i32', tot)
    b = S.buf('a_' + name, ty, tot, lo, hi)
    S.set(p, 32, 'ptr', b)
    S.set(p, 40, 'u8', 1)
    return p


def objects(S, name, items, dt='Object'):
    """a one-dimensional array of the given objects"""
    n = len(items)
    p = S.obj(48, name, 'Array')
    S.set(p, 8, 'i32', DT[dt])
    for i, d in enumerate((n, -1, -1)):
        S.set(p, 12 + 4 * i, 'i32', d)
    S.set(p, 24, 'i32', 1)
    S.set(p, 28, 'i32', n)
    b = S.obj(8 * n, 'a_' + name) if n else S.buf('a_' + name, 'i64', 0)
    for i, o in enumerate(items):
        S.set(b, 8 * i, 'ptr', o)
    S.set(p, 32, 'ptr', b)
    S.set(p, 40, 'u8', 1)
    return p


def adata(W, p):
    return W.ld(p, 32, 'ptr')


def alen(W, p):
    return W.ld(p, 28, 'i32')


# boxed primitive values: {vtable, value at offset 8}
BOXCLS = {'Boolean': 'BooleanValue', 'Char': 'CharValue', 'SByte': 'SByteValue', 'Byte': 'ByteValue', 'Int16': 'Int16Value', 'UInt16': 'UInt16Value', 'Int32': 'Int32Value',
          'UInt32': 'UInt32Value', 'Int64': 'Int64Value', 'UInt64': 'UInt64Value', 'Single': 'SingleValue', 'Double': 'DoubleValue', 'DateTime': 'DateTimeValue', 'TimeSpan': 'TimeSpanValue'}
INTS = ['SByte', 'Byte', 'Int16', 'UInt16', 'Int32', 'UInt32', 'Int64', 'UInt64']
BTY = dict(ETY, DateTime='u64')


def val(S, name, dt):
    ty = BTY[dt]
    return S.f64(name) if ty == 'f64' else S.f32(name) if ty == 'f32' else S.bool(name) if dt == 'Boolean' else S.int(name, ty)


def box(S, name, dt, v=None):
    """a boxed value (its value is an input unless given)"""
    if v is None:
        v = val(S, name, dt)
    p = S.obj(16, 'box_' + name, BOXCLS[dt])
    S.set(p, 8, BTY[dt], v)
    return p


def newbox(dt, v):
    return NewObj(BOXCLS[dt], {8: (BTY[dt], v)})


def at(W, p, off):
    """the pointer p + off bytes"""
    off = raw(off)
    return Ptr(p.b, off_add(INT, p.off, off)) if W.symbolic else CPtr(p.b, p.off + off)


# StringBuilder: {vtable, 129 characters at 8, buffer pointer at 528, capacity 536, length 540, maximum 544}
SBCAP = 128


def builder(S, name, mode=None, maxlen=MAXLEN, nonul=False):
    """a well-formed StringBuilder: length <= capacity <= maximum; capacity + 1 characters of room; a zero after the contents"""
    mode = mode or S.choose('buffer', ['inline', 'grown'])
    p = S.obj(552, name, 'StringBuilder')
    if mode == 'inline':
        cap = S.int(name + '.cap', 'i32', 0, SBCAP)
        n = S.int(name + '.len', 'i32', 0, SBCAP, size=True)
        S.assume(n <= cap)
        S.inner(p, 8, 'i32', SBCAP + 1, 's_' + name)
        d = at(S, p, 8)
        S.set(p, 528, 'ptr', d)
    else:
        S.inner(p, 8, 'i32', SBCAP + 1, 'x_' + name)
        n = S.int(name + '.len', 'i32', 0, maxlen, size=True)
        cap = S.int(name + '.cap', 'i32', SBCAP + 1, maxlen, size=True)
        S.assume(n <= cap)
        d = S.buf('s_' + name, 'i32', cap + 1)
        S.set(p, 528, 'ptr', d)
    if nonul:
        S.terminate(d, n)
    else:
        S.zero_at(d, n)
    mx = S.int(name + '.max', 'i32', 1, 2 ** 31 - 1)
    S.assume(cap <= mx)
    S.set(p, 536, 'i32', cap)
    S.set(p, 540, 'i32', n)
    S.set(p, 544, 'i32', mx)
    return p


def bdata(W, p):
    return W.ld(p, 528, 'ptr')


def blen(W, p):
    return W.ld(p, 540, 'i32')


def bcap(W, p):
    return W.ld(p, 536, 'i32')


def bmax(W, p):
    return W.ld(p, 544, 'i32')


def bch(W, p):
    return W.reader(bdata(W, p), 'i32')


# ---- conversions between primitive types ---------------------------------------------------------------
def tyw(ty):
    return int(ty[1:])


def wrap_to(W, ty, v):
    return W.unsigned(tyw(ty), v) if ty[0] == 'u' else W.wrap(tyw(ty), v)


def castable(B, T):
    """does a boxed B convert to T (otherwise InvalidCastException)"""
    if B == T:
        return True
    if B == 'Boolean':
        return T in INTS
    if B == 'Char':
        return T in INTS + ['Single', 'Double']
    if B in INTS:
        return T in INTS + ['Boolean', 'Char', 'Single', 'Double']
    if B in ('Single', 'Double'):
        return T in ('Int16', 'UInt16', 'Int32', 'UInt32', 'Int64', 'UInt64', 'Single', 'Double')
    return False


def convert(W, B, T, v):
    """the value of a boxed B as T"""
    if not castable(B, T):
        W.throw('InvalidCastException')
    if B == T:
        return v
    if B == 'Boolean':
        return W.If(v, 1, 0)
    if T == 'Boolean':
        return v != 0
    if B in ('Single', 'Double'):
        if T in INTS:
            return W.f2i(v, tyw(ETY[T]), ETY[T][0] == 'i')
        return W.fconv(v, 64 if T == 'Double' else 32)
    if T in ('Single', 'Double'):
        return W.i2f(v, 64 if T == 'Double' else 32)
    return wrap_to(W, ETY[T], v)


def fits(S, B, T, v):
    """a floating value whose truncation is representable in the integer type T"""
    ty, bits = ETY[T], 64 if B == 'Double' else 32
    w = tyw(ty)
    c = lambda x: S.fc(float(x), bits)
    if ty[0] == 'u':
        S.assume(S.And(v > c(-1), v < c(2 ** w)))
    elif w < (53 if bits == 64 else 24):
        S.assume(S.And(v > c(-2 ** (w - 1) - 1), v < c(2 ** (w - 1))))
    else:
        S.assume(S.And(v >= c(-2 ** (w - 1)), v < c(2 ** (w - 1))))


def class_of(W, p):
    """the class of an object, from its vtable"""
    return W.vtable_of(p)[len('_ZTVN13DotnetLibrary'):-1].lstrip('0123456789')
