"""Abstract state of a StringBuilder: what every operation may change and must establish."""
from .kinds import *

ROOM = 2 ** 30


def owned(W, P, ck, b, q, c2):
    """the buffer belongs to the builder and holds capacity + 1 characters"""
    inline = q.b == b.b
    if inline:
        ck('the inline buffer starts at its place', mk(q.off == b.off + 8))
        ck('the inline buffer holds the capacity', c2 <= SBCAP)
        return
    ck('the buffer is memory of its own', q.b != 0 and not W.had(q) and P.alive(q))
    ck('the buffer starts at its block', mk(q.off == 0))
    ck('a separate buffer is larger than the inline one', c2 > SBCAP)
    ck('the buffer holds capacity + 1 characters', P.blocksize(q) >= 4 * (c2 + 1))


def mk(x):
    return x if isinstance(x, bool) else bool(x)


def sbset(W, b, n, ch, need=None):
    """the builder now holds n characters ch(k); everything else about it is kept.  `need`: capacity asked for (default n).
    At a call the new capacity is returned."""
    cap, mx, d = bcap(W, b), bmax(W, b), bdata(W, b)
    inline = d.b == b.b
    need = n if need is None else need
    W.small(need)
    room = None if W.abstract() and W.local(b) else bool(need <= cap)
    vt = W.vtable_of(b)
    W.hidden.add(b.b)
    W.hidden.add(d.b)
    if W.abstract() and W.local(b):
        c2 = W.some_int('capacity', W.max(need, cap), mx)
        q = W.some_buf('i32', c2 + 1)
        if inline:
            W.opaque(at(W, b, 8))
        else:
            W.free(d)
        W.st_(b, 528, 'ptr', q)
        W.st_(b, 536, 'i32', c2)
        W.set_region(q, 'i32', 0, n, ch)
        W.st_(q, 4 * n, 'i32', 0)
        W.st.ghost[('nul', q.b)] = (raw(n),)
        W.st_(b, 540, 'i32', n)
        return c2
    if W.at_call():
        if room:
            q = d
            W.havoc(d, 'i32')
        else:
            c2 = W.some_int('capacity', need, mx)
            if not inline:
                W.assume(c2 > SBCAP)
            if c2 <= SBCAP:
                q = d
                W.havoc(d, 'i32')
            else:
                q = W.fresh_buf('i32', c2 + 1)
                if not inline:
                    W.free(d)
            W.st_(b, 528, 'ptr', q)
            W.st_(b, 536, 'i32', c2)
        W.set_region(q, 'i32', 0, n, ch)
        W.st_(q, 4 * n, 'i32', 0)
        W.st.ghost[('nul', q.b)] = (raw(n),)
        W.st_(b, 540, 'i32', n)
        return cap if room else c2

    def v(P, ck):
        ck('still a StringBuilder', P.vtable_of(b) == vt)
        ck('length', blen(P, b) == n)
        ck('maximum capacity is kept', bmax(P, b) == mx)
        q, c2 = bdata(P, b), bcap(P, b)
        if room:
            ck('capacity is kept', c2 == cap)
            ck('buffer is kept', q.b == d.b and mk(q.off == d.off))
            ck('buffer is alive', P.alive(q))
        else:
            ck('capacity holds the length', c2 >= need)
            ck('capacity does not exceed the maximum', c2 <= mx)
            owned(W, P, ck, b, q, c2)
            if not inline and q.b != d.b:
                ck('the old buffer is released', not P.alive(d))
        rd = P.reader(q, 'i32')
        ck('a zero follows the contents', rd(n) == 0)
        ck.all('contents', 0, n, lambda k: rd(k) == ch(k))
    W.views.append(v)


def sbnew(W, b, n, ch, cap, mx):
    """the memory at b becomes a builder of n characters with a capacity of at least cap"""
    W.hidden.add(b.b)
    W.small(cap)
    if W.at_call():
        W.st_(b, 0, 'ptr', Ptr(W.ctx.glob_id('_ZTVN13DotnetLibrary13StringBuilderE'), 16))
        c2 = W.some_int('capacity', cap, mx)
        d = at(W, b, 8)
        if W.abstract() and W.local(b):
            W.opaque(d)
            d = W.some_buf('i32', c2 + 1)
        else:
            W.havoc(d, 'i32')
        if d.b == b.b and c2 > SBCAP:
            d = W.fresh_buf('i32', c2 + 1)
        W.set_region(d, 'i32', 0, n, ch)
        W.st_(d, 4 * n, 'i32', 0)
        W.st.ghost[('nul', d.b)] = (raw(n),)
        for o, t, v in ((528, 'ptr', d), (536, 'i32', c2), (540, 'i32', n), (544, 'i32', mx)):
            W.st_(b, o, t, v)
        return

    def v(P, ck):
        ck('is a StringBuilder', P.vtable_of(b) == '_ZTVN13DotnetLibrary13StringBuilderE')
        ck('length', blen(P, b) == n)
        ck('maximum capacity', bmax(P, b) == mx)
        q, c2 = bdata(P, b), bcap(P, b)
        ck('capacity is at least the requested one', c2 >= cap)
        ck('capacity does not exceed the maximum', c2 <= mx)
        owned(W, P, ck, b, q, c2)
        rd = P.reader(q, 'i32')
        ck('a zero follows the contents', rd(n) == 0)
        ck.all('contents', 0, n, lambda k: rd(k) == ch(k))
    W.views.append(v)


def spliced(W, old, n, at_, m, new):
    """contents after m characters new(j) are put before position at_ of the n old characters"""
    def ch(k):
        return W.If(k < at_, old(k), W.If(k < at_ + m, new(k - at_), old(k - m)))
    return ch


def append(W, b, m, new, where=-1):
    """insert m characters new(j) at `where` (-1: at the end)"""
    n, mx = blen(W, b), bmax(W, b)
    old = bch(W, b)
    if where == -1:
        where = n
    if W.Or(where < 0, where > n):
        W.throw('IndexOutOfRangeException')
    if W.Or(m < 0, m > mx - n):
        W.throw('ArgumentOutOfRangeException')
    sbset(W, b, n + m, spliced(W, old, n, where, m, new))
    return b


def text_form(W, dt, v):
    """(length, characters) of the text of a primitive value"""
    if dt == 'Boolean':
        return W.If(v, 4, 5), lambda k: W.If(v, pick(W, 'True', k), pick(W, 'False', k))
    if dt == 'Char':
        return 1, lambda k: v
    if dt in ('Single', 'Double'):
        return W.gtext(v)
    return W.dec(v)


def pick(W, s, k):
    r = ord(s[-1])
    for i in range(len(s) - 2, -1, -1):
        r = W.If(k == i, ord(s[i]), r)
    return r
