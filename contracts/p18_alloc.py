"""The platform allocator behind operator new."""
from engine.verify import contract
from .kinds import *

P = 'P18'
POOL = 2 ** 30         # largest pool (MEMORY_SIZE) considered


def pool(S, mode=None):
    """the allocator's globals: no pool, or a pool of memorySize bytes filled up to an aligned level"""
    mode = mode or S.choose('mode', ['pool', 'heap'])
    if mode == 'heap':
        S.set_glob('memory', 'ptr', S.null())
        S.set_glob('currentMemory', 'ptr', S.null())
        S.set_glob('memorySize', 'u32', 0)
        S.set_glob('memoryUsed', 'u32', 0)
        return
    size = S.int('memorySize', 'u32', 0, POOL, size=True)
    q = S.int('level', 'u32', 0, POOL // 8, size=True)
    S.assume(q * 8 <= size)
    m = S.buf('pool', 'u8', size)
    S.set_glob('memory', 'ptr', m)
    S.set_glob('currentMemory', 'ptr', at(S, m, q * 8))
    S.set_glob('memorySize', 'u32', size)
    S.set_glob('memoryUsed', 'u32', q * 8)


def g(W, name, ty):
    return W.ld(W.global_ptr(name), 0, ty)


def take(W, n):
    m = g(W, 'memory', 'ptr')
    if W.is_null(m):
        W.small(n // 1000)
        return NewMem(n)
    size, used = g(W, 'memorySize', 'u32'), g(W, 'memoryUsed', 'u32')
    need = (n + 7) // 8 * 8
    if used + need > size:
        return W.null()
    W.st_(W.global_ptr('memoryUsed'), 0, 'u32', used + need)
    W.st_(W.global_ptr('currentMemory'), 0, 'ptr', at(W, m, used + need))
    W.set_region(m, 'u8', used, n, lambda k: 0)

    def inv(A, ck):
        l = g(A, 'memoryUsed', 'u32')
        ck('the fill level covers this region', l >= used + n)
        ck('the fill level stays inside the pool', l <= g(A, 'memorySize', 'u32'))
        ck('the fill level stays aligned', l % 8 == 0)
    W.views.append(inv)
    return at(W, m, used)


def req(S):
    pool(S)
    return [S.int('n', 'u64', 0, 2 ** 63 - 1)]


contract('alloc.new', P, '_Z27my_operator_new_replacementm', 'ptr', setup=req, spec=take, fork=True, opts={'malloc_fails': True, 'args': ['u64']})
contract('alloc.new_huge', P, '_Z27my_operator_new_replacementm', 'ptr', setup=lambda S: [pool(S, 'pool'), S.int('n', 'u64')][1:], spec=take, fork=True)
contract('alloc.operator_new', P, '_Znwm', 'ptr', setup=req, spec=take, nosearch=True, opts={'malloc_fails': True})
contract('alloc.operator_new_array', P, '_Znam', 'ptr', setup=req, spec=take, nosearch=True, opts={'malloc_fails': True})


def give(S):
    k = S.choose('mode', ['pool', 'heap', 'null'])
    if k == 'pool':
        pool(S, 'pool')
        m = S.ld(S.glob('memory'), 0, 'ptr')
        o = S.int('off', 'u32', 0, POOL, size=True)
        S.assume(o <= S.ld(S.glob('memorySize'), 0, 'u32'))
        return [at(S, m, o)]
    pool(S, 'heap')
    return [S.null() if k == 'null' else S.buf('m', 'u8', S.int('n', 'u32', 0, 2 ** 31, size=True))]


def release(W, p):
    if W.is_null(g(W, 'memory', 'ptr')) and not W.is_null(p):
        W.free(p)


for nm, f in (('delete', '_Z30my_operator_delete_replacementPv'), ('operator_delete', '_ZdlPv')):
    contract('alloc.' + nm, P, f, 'void', setup=give, spec=release, fork=True, nosearch=f == '_ZdlPv')


def start(W):
    m = g(W, 'memory', 'ptr')
    size = g(W, 'memorySize', 'u32')
    fresh = W.is_null(m)
    W.st_(W.global_ptr('memoryUsed'), 0, 'u32', 0)
    if not fresh:
        W.st_(W.global_ptr('currentMemory'), 0, 'ptr', m)
        return
    for n in ('memory', 'currentMemory', 'memorySize'):
        W.hidden.add(W.global_ptr(n).b)

    def v(A, ck):
        q, c, n = g(A, 'memory', 'ptr'), g(A, 'currentMemory', 'ptr'), g(A, 'memorySize', 'u32')
        if A.is_null(q):
            ck('without memory there is no pool', A.is_null(c))
            return
        ck('the pool starts empty', A.same(q, c))
        ck('the pool has the recorded size', A.blocksize(q) >= n)
    W.views.append(v)


contract('alloc.setup', P, '_Z19PlatformMemorySetupv', 'void', setup=lambda S: [pool(S)][1:], spec=start, fork=True, opts={'malloc_fails': True})
contract('alloc.platform_setup', P, '_Z13PlatformSetupv', 'void', setup=lambda S: [pool(S)][1:], spec=start, fork=True, opts={'malloc_fails': True})
