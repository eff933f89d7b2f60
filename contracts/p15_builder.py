"""StringBuilder: an editable text."""
from engine.verify import contract
from .kinds import *
from .sb import *

P = 'P15'
SB = '_ZN13DotnetLibrary13StringBuilder'
I32 = 2 ** 31 - 1


# ---- construction ------------------------------------------------------------------------------------
def make(W, b, cap, mx):
    if W.Or(cap > mx, mx < 1, cap < 0):
        W.hidden.add(b.b)
        W.throw('ArgumentOutOfRangeException')
    sbnew(W, b, 0, lambda k: 0, cap, mx)



def raw_sb(S):
    b = S.obj(552, 'b')
    S.inner(b, 8, 'i32', SBCAP + 1, 'memory')
    return b


contract('SB.ctor', P, SB + 'C2Ev', 'void', setup=lambda S: [raw_sb(S)], spec=lambda W, b: make(W, b, 0, I32))
contract('SB.ctor.cap', P, SB + 'C2Ei', 'void', setup=lambda S: [raw_sb(S), S.int('cap')], spec=lambda W, b, c: make(W, b, c, I32))
contract('SB.ctor.cap_max', P, SB + 'C2Eii', 'void', setup=lambda S: [raw_sb(S), S.int('cap'), S.int('max')], spec=make)


def nstring(S, name):
    return S.null() if S.choose(name, ['string', 'null']) == 'null' else string(S, name)


def text_of(W, s):
    if W.is_null(s):
        return 0, lambda k: 0
    return slen(W, s), sch(W, s)


def from_text(W, b, s, start, length, cap):
    n, rd = text_of(W, s)
    if W.Or(cap < 0, length < 0, start < 0, start > n - length):
        W.hidden.add(b.b)
        W.throw('ArgumentOutOfRangeException')
    sbnew(W, b, length, lambda k: rd(start + k), W.max(cap, length), I32)


contract('SB.ctor.text', P, SB + 'C2EPNS_6StringEi', 'void', setup=lambda S: [raw_sb(S), nstring(S, 's'), S.int('cap')], spec=lambda W, b, s, c: from_text(W, b, s, 0, text_of(W, s)[0], c))
contract('SB.ctor.part', P, SB + 'C2EPNS_6StringEiii', 'void', setup=lambda S: [raw_sb(S), nstring(S, 's'), S.int('start'), S.int('length'), S.int('cap')], spec=from_text)


def destroy(W, b):
    d = bdata(W, b)
    W.hidden.add(b.b)
    if d.b != b.b:
        W.free(d)


contract('SB.dtor', P, SB + 'D2Ev', 'void', setup=lambda S: [builder(S, 'b')], spec=destroy)


# ---- reading -----------------------------------------------------------------------------------------
one = lambda *more: lambda S: [builder(S, 'b')] + [S.int(m) for m in more]
contract('SB.get_Length', P, SB + '10get_LengthEv', 'i32', setup=one(), spec=blen)
contract('SB.get_Buffer', P, SB + '10get_BufferEv', 'ptr', setup=one(), spec=bdata, optional=True)
contract('SB.IsInternal', P, SB + '10IsInternalEv', 'bool', setup=one(), spec=lambda W, b: bdata(W, b).b == b.b, optional=True)
contract('SB.get_Capacity', P, SB + '12get_CapacityEv', 'i32', setup=one(), spec=bcap)
contract('SB.get_MaxCapacity', P, SB + '15get_MaxCapacityEv', 'i32', setup=one(), spec=bmax)


def inside(W, b, i):
    if W.Or(i < 0, i >= blen(W, b)):
        W.throw('IndexOutOfRangeException')


def address(W, b, i, j=0, k=0):
    inside(W, b, i)
    return at(W, bdata(W, b), i * 4)


def get(W, b, i):
    inside(W, b, i)
    return bch(W, b)(i)


def put(W, b, i, c):
    inside(W, b, i)
    n, old = blen(W, b), bch(W, b)
    sbset(W, b, n, lambda k: W.If(k == i, c, old(k)))


contract('SB.Address', P, SB + '7AddressEiii', 'ptr', setup=one('i', 'j', 'k'), spec=address)
contract('SB.get_Chars', P, SB + '9get_CharsEi', 'i32', setup=one('i'), spec=get)
contract('SB.set_Chars', P, SB + '9set_CharsEiw', 'void', setup=one('i', 'c'), spec=put)


def text(W, b, start=0, length=None):
    rd = bch(W, b)
    if length is None:
        return NewStr(blen(W, b), rd)
    inside(W, b, start)
    if W.Or(length < 0, length > blen(W, b) - start):
        W.throw('IndexOutOfRangeException')
    return NewStr(length, lambda k: rd(start + k))


contract('SB.ToString', P, SB + '8ToStringEv', 'ptr', setup=one(), spec=text)
contract('SB.ToString.part', P, SB + '8ToStringEii', 'ptr', setup=one('start', 'length'), spec=text)


@contract('SB.FormatString', P, SB + '12FormatStringEPwi', 'i32')
class _:
    def setup(S):
        size = S.int('size', 'i32', 0, 2 ** 29, size=True)
        return [builder(S, 'b'), S.buf('w', 'i32', size), size]

    def spec(W, b, w, size):
        n, rd = blen(W, b), bch(W, b)
        if size <= n:
            W.throw('IndexOutOfRangeException')
        W.set_region(w, 'i32', 0, n, rd)
        W.st_(w, 4 * n, 'i32', 0)
        return n


@contract('SB.Equals', P, SB + '6EqualsEPS0_', 'bool')
class _:
    def setup(S):
        k = S.choose('other', ['builder', 'same', 'null'])
        b = builder(S, 'b', nonul=True)
        return [b, builder(S, 'c', nonul=True) if k == 'builder' else b if k == 'same' else S.null()]

    def spec(W, b, c):
        if W.is_null(c):
            return False
        if W.Or(bcap(W, b) != bcap(W, c), bmax(W, b) != bmax(W, c), blen(W, b) != blen(W, c)):
            return False
        x, y = bch(W, b), bch(W, c)
        return W.all(0, blen(W, b), lambda k: x(k) == y(k))


# ---- size --------------------------------------------------------------------------------------------
@contract('SB.set_Capacity', P, SB + '12set_CapacityEi', 'void')
class _:
    setup = one('cap')

    def spec(W, b, cap):
        n, old, c, mx = blen(W, b), bch(W, b), bcap(W, b), bmax(W, b)
        if W.Or(cap < 0, cap > mx, cap < n):
            W.throw('ArgumentOutOfRangeException')
        if bdata(W, b).b != b.b and cap < c:
            W.throw('ArgumentOutOfRangeException')
        W.small(cap)
        if cap <= c:
            W.st_(b, 536, 'i32', cap)
            return
        sbset(W, b, n, old, need=cap)


@contract('SB.EnsureCapacity', P, SB + '14EnsureCapacityEi', 'i32')
class _:
    setup = one('cap')

    def spec(W, b, cap):
        if W.Or(cap < 0, cap > bmax(W, b)):
            W.throw('ArgumentOutOfRangeException')
        c = bcap(W, b)
        c2 = sbset(W, b, blen(W, b), bch(W, b), need=cap)
        return c2 if W.at_call() else AnyOf(lambda P, v: v == bcap(P, b))


@contract('SB.set_Length', P, SB + '10set_LengthEi', 'void')
class _:
    setup = one('n')

    def spec(W, b, n):
        if W.Or(n < 0, n > bmax(W, b)):
            W.throw('ArgumentOutOfRangeException')
        m, old = blen(W, b), bch(W, b)
        sbset(W, b, n, lambda k: W.If(k < m, old(k), 0))


def clear(W, b):
    sbset(W, b, 0, lambda k: 0)
    return b


contract('SB.Clear', P, SB + '5ClearEv', 'ptr', setup=one(), spec=clear)


# ---- appending and inserting ---------------------------------------------------------------------------
@contract('SB.Append.chars', P, SB + '6AppendEPKwii', 'ptr',
          requires=lambda W, b, v, n, where: [('the characters do not belong to the builder', v.b != b.b and v.b != bdata(W, b).b), ('there are that many characters', W.blocksize(v) >= 4 * n)])
class _:
    def setup(S):
        n = S.int('n', 'i32', size=True)
        return [builder(S, 'b'), S.buf('v', 'i32', S.max(n, 0)), n, S.int('where')]

    def spec(W, b, v, n, where):
        return append(W, b, n, W.reader(v, 'i32'), where)


def chars(S):
    k = S.choose('values', ['chars', 'null', '2d', 'ints'])
    return S.null() if k == 'null' else array(S, 'v', 'Char', 2) if k == '2d' else array1(S, 'v', 'Int32' if k == 'ints' else 'Char')


def from_array(W, b, v, start, count, where):
    if W.is_null(v):
        return b
    n = alen(W, v)
    if start < 0:
        start = 0
    if count < 0:
        count = n
    if count == 0:
        return b
    if count > n - start:
        W.throw('ArgumentOutOfRangeException')
    if W.ld(v, 8, 'i32') != DT['Char']:
        W.throw('ArgumentOutOfRangeException')
    if W.ld(v, 24, 'i32') != 1:
        W.throw('RankException')
    rd = W.reader(adata(W, v), 'i32')
    return append(W, b, count, lambda k: rd(start + k), where)


contract('SB.Append.array', P, SB + '6AppendEPNS_5ArrayEii', 'ptr', setup=lambda S: [builder(S, 'b'), chars(S), S.int('start'), S.int('count')],
         spec=lambda W, b, v, s, c: from_array(W, b, v, s, c, blen(W, b)))
contract('SB.Insert.array', P, SB + '6InsertEiPNS_5ArrayEii', 'ptr', setup=lambda S: [builder(S, 'b'), S.int('index', 'i32', 0), chars(S), S.int('start'), S.int('count')],
         spec=lambda W, b, i, v, s, c: from_array(W, b, v, s, c, i))


def from_string(W, b, s, start, count):
    if W.is_null(s):
        return b
    n, rd = text_of(W, s)
    if count < 0:
        count = n
    if W.Or(start < 0, start > n - count):
        W.throw('ArgumentOutOfRangeException')
    return append(W, b, count, lambda k: rd(start + k))


contract('SB.Append.string', P, SB + '6AppendEPNS_6StringEii', 'ptr', setup=lambda S: [builder(S, 'b'), nstring(S, 's'), S.int('start'), S.int('count')], spec=from_string)


def repeat(W, b, c, n):
    if n < 0:
        W.throw('ArgumentOutOfRangeException')
    return append(W, b, n, lambda k: c)


contract('SB.Append.char', P, SB + '6AppendEw', 'ptr', setup=one('c'), spec=lambda W, b, c: repeat(W, b, c, 1))
contract('SB.Append.repeat', P, SB + '6AppendEwi', 'ptr', setup=one('c', 'n'), spec=repeat)
contract('SB.AppendLine', P, SB + '10AppendLineEv', 'ptr', setup=one(), spec=lambda W, b: line(W, b, W.null()))


def line(W, b, s):
    n, rd = text_of(W, s)
    m = n + 2
    if m > bmax(W, b) - blen(W, b):
        # how much of the line was appended before the exception is unspecified
        W.hidden.add(b.b)
        W.hidden.add(bdata(W, b).b)
        W.throw('ArgumentOutOfRangeException')
    return append(W, b, m, lambda k: W.If(k < n, rd(k), W.If(k == n, 13, 10)))


contract('SB.AppendLine.text', P, SB + '10AppendLineEPNS_6StringE', 'ptr', setup=lambda S: [builder(S, 'b'), nstring(S, 's')], spec=line, uses=['SB.Append.string', 'SB.AppendLine'])


def insert_string(W, b, index, s, count):
    if W.is_null(s):
        return b
    if count <= 0:
        return append(W, b, 0, lambda k: 0)
    m, rd = text_of(W, s)
    W.small(count)
    if W.Or(index < 0, index > blen(W, b)):
        W.throw('IndexOutOfRangeException')
    return append(W, b, m * count, W.periodic(rd, m), index)


def inserted(W, b):
    """while repeating: the text so far stands at the position, whatever its length"""
    if b.b != W.args[0].b or W.is_null(W.args[2]):
        return None
    index, s = W.args[1], W.args[2]
    n, old = blen(W, b), bch(W, b)
    m, rd = text_of(W, s)
    T = W.periodic(rd, m)
    return lambda k, L: spliced(W, old, n, index, L - n, T)(k)


contract('SB.Insert.string', P, SB + '6InsertEiPNS_6StringEi', 'ptr', setup=lambda S: [builder(S, 'b'), S.int('index'), nstring(S, 's'), S.int('count')], spec=insert_string,
         uses=['SB.Append.chars'], opts={'loop_builder': inserted}, weight=3)


# ---- text forms of other values: the value's own text ---------------------------------------------------
NSP = '_ZN13DotnetLibrary'
MANGLE = {'Boolean': 'b', 'Char': 'w', 'SByte': 'a', 'Byte': 'h', 'Int16': 's', 'UInt16': 't', 'Int32': 'i', 'UInt32': 'j', 'Int64': 'l', 'UInt64': 'm', 'Single': 'f', 'Double': 'd'}


def text_value(W, dt, v):
    return text_form(W, dt, v)


for _dt, _m in MANGLE.items():
    _uses = ['SB.Append.chars', BOXCLS[_dt] + '.FormatString']
    if _dt != 'Char':
        contract('SB.Append.' + _dt, P, SB + '6AppendE' + _m, 'ptr', setup=(lambda dt: lambda S: [builder(S, 'b'), val(S, 'v', dt)])(_dt),
                 spec=(lambda dt: lambda W, b, v: append(W, b, *text_value(W, dt, v)))(_dt), uses=_uses)
    contract('SB.Insert.' + _dt, P, SB + '6InsertEi' + _m, 'ptr', setup=(lambda dt: lambda S: [builder(S, 'b'), S.int('index', 'i32', 0), val(S, 'v', dt)])(_dt),
             spec=(lambda dt: lambda W, b, i, v: append(W, b, *text_value(W, dt, v), where=i))(_dt), uses=_uses)


OBJECTS = ['null', 'string', 'builder', 'Boolean', 'Char', 'Int32', 'Double']


def some_object(S):
    k = S.choose('object', OBJECTS)
    return S.null() if k == 'null' else string(S, 's') if k == 'string' else builder(S, 's', nonul=True) if k == 'builder' else box(S, 's', k)


def object_text(W, o):
    """(length, characters) of the text of an object"""
    if W.is_null(o):
        return 0, lambda k: 0
    cls = class_of(W, o)
    if cls == 'String':
        return text_of(W, o)
    if cls == 'StringBuilder':
        return blen(W, o), bch(W, o)
    dt = [d for d in BOXCLS if BOXCLS[d] == cls][0]
    return text_form(W, dt, W.ld(o, 8, BTY[dt]) if dt != 'Boolean' else W.ld(o, 8, 'u8') != 0)


def append_object(W, b, o, where=-1):
    if W.is_null(o):
        return b
    n, ch = object_text(W, o)
    return append(W, b, n, ch, where)


FORMATS = [BOXCLS[d] + '.FormatString' for d in OBJECTS[3:]]
contract('SB.Append.object', P, SB + '6AppendEPNS_6ObjectE', 'ptr', setup=lambda S: [builder(S, 'b'), some_object(S)], spec=append_object, uses=['SB.Append.chars'] + FORMATS)
contract('SB.Insert.object', P, SB + '6InsertEiPNS_6ObjectE', 'ptr', setup=lambda S: [builder(S, 'b'), S.int('index', 'i32', 0), some_object(S)],
         spec=lambda W, b, i, o: append_object(W, b, o, i), uses=['SB.Insert.string'] + FORMATS)


@contract('SB.Remove', P, SB + '6RemoveEii', 'ptr')
class _:
    setup = one('start', 'length')

    def spec(W, b, start, length):
        n, old = blen(W, b), bch(W, b)
        if W.Or(start < 0, length < 0, length > n - start):
            W.throw('ArgumentOutOfRangeException')
        sbset(W, b, n - length, lambda k: W.If(k < start, old(k), old(k + length)))
        return b


def rep(W, b, x, y, start=None, count=None):
    n, old = blen(W, b), bch(W, b)
    if start is None:
        start, count = 0, n
    if W.Or(start < 0, start > n, count < 0, start > n - count):
        W.throw('ArgumentOutOfRangeException')
    sbset(W, b, n, lambda k: W.If(W.And(k >= start, k < start + count, old(k) == x), y, old(k)))
    return b


contract('SB.Replace.char', [P, 'P16'], SB + '7ReplaceEww', 'ptr', setup=one('x', 'y'), spec=rep)
contract('SB.Replace.char_part', [P, 'P16'], SB + '7ReplaceEwwii', 'ptr', setup=one('x', 'y', 'start', 'count'), spec=rep)
