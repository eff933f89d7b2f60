#!/opt/veriftools/pyvenv/bin/python
"""check.py PROPERTY [quick|thorough]      decide one property on /repo's current tree
check.py replay FILE                        run a recorded failing input again
check.py setup                              build what the checks share"""
import sys, os, time, json, glob, importlib, multiprocessing, traceback, threading, random
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
os.chdir(HERE)
sys.setrecursionlimit(20000)
from engine import extract, ir, verify, replay

SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
EVID = os.path.join(HERE, 'evidence')


def load():
    for f in sorted(glob.glob(HERE + '/contracts/p*.py')):
        importlib.import_module('contracts.' + os.path.basename(f)[:-3])


TRUST = ['clang 18 front end at -O0, llvm-link, opt pass sroa (C++ source to LLVM IR); the shipped build uses gcc -O2 on the same source',
         'the verification-condition generator in /verif/engine (own code), cross-validated on the compiled library by the validation runs',
         'z3 5.x (and cvc5 1.4 where named) as back-end solvers']
MODEL = ['machine integers are exact: signed arithmetic wraps modulo 2^w (clang -O0 code), no mathematical-integer idealisation',
         'allocation succeeds and returns zeroed memory (operator new of the library in its malloc mode; the pool mode is property P18)',
         'exceptions are identified by their static class; destructors and cleanups run on unwinding are executed like other code',
         'the C library functions named in trusted_base follow their assumed contracts; wchar_t is 32 bits']

_mod = None


def work(job):
    """verify one contract (in a worker process)"""
    cid, tier, exe, deadline, nouse = job
    c = verify.REG[cid]
    out = dict(id=cid, fn=c.fn, ok=False, error=None, failed=[], obls=0, proved=0, simp=0, cvc5=0, viol=None, cases=0, paths=0, stats={}, ext=[], covered=[], val=0, inl=[], used=[], wall=0,
               kinds={}, helper=c.helper, missing=False, cross={}, sample=None)
    t0 = time.time()
    try:
        budget = min(c.timeout, max(5, deadline - t0)) if tier == 'quick' else max(5, min(c.timeout * 4, deadline - t0))
        if c.optional and _mod.fn(c.fn) is None:
            out['missing'] = True
            return out
        models = []

        def prove(budget, opts=None):
            r = verify.verify(c, _mod, budget, ob_timeout=c.opts.get('ob_timeout', 20.0), cross=(tier == 'thorough'), nouse=nouse, opts=opts)
            out.update(kinds={}, proved=0, simp=0, cvc5=0, failed=[])
            out.update(error=r.error, obls=len(r.obls), cases=r.cases, paths=r.paths, stats=r.stats, ext=sorted(r.ext), covered=sorted(r.covered), inl=sorted(r.inlined), used=sorted(r.used))
            for o in r.obls:
                out['kinds'][o.kind] = out['kinds'].get(o.kind, 0) + 1
                if o.status == 'proved':
                    out['proved'] += 1
                    if o.backend == 'simplifier':
                        out['simp'] += 1
                    if o.backend == 'cvc5':
                        out['cvc5'] += 1
                else:
                    f = dict(name=o.name, kind=o.kind, where=o.where, case=o.case, status=o.status)
                    if f not in out['failed']:
                        out['failed'].append(f)
            out['ok'] = r.status == 'ok'
            out['cross'] = dict(agree=r.stats.get('cross_agree', 0), silent=r.stats.get('cross_silent', 0))
            if r.stats.get('cross_disagree'):
                out['ok'] = False
                out['failed'].append(dict(name='the second solver refutes a discharged obligation', kind='back end', where='', case='', status='disagree'))
            return r.models
        if c.bounded is None or c.opts.get('symbolic'):
            models = prove(budget)
        else:
            out['ok'] = True
        out['pwall'] = time.time() - t0
        if c.nosearch:
            out['wall'] = time.time() - t0
            return out
        n = c.search if tier == 'quick' else c.search * 12
        if not out['ok']:
            n *= 4
        t1 = time.time()
        cases = replay.cases_models(c, models, SEED) if models else []
        k, d, v, x = replay.find(exe, c, cases) if cases else (None, None, 0, None)
        out['val'] += v
        rnd = 0
        while k is None and n > 0 and (rnd == 0 or time.time() - t1 < (40 if tier == 'quick' else 300)):
            m = min(n, 1500)
            n -= m
            cs = replay.cases_random(c, m, SEED * 1000 + rnd)
            rnd += 1
            if not cs:
                break
            if out['sample'] is None:
                q = cs[0]
                out['sample'] = '%s(%s) -> %s' % (cid, replay.describe(q)[:200], q.exp[0] if q.exp[0] == 'ret' else q.exp[1])
            k, d, v, x = replay.find(exe, c, cs)
            out['val'] += v
        t2 = time.time()
        consts = replay.constants(_mod, c.fn) if k is None and (tier != 'quick' or not out['ok']) else []
        rnd = 0
        while k is None and (tier != 'quick' or not out['ok']) and time.time() - t2 < (45 if tier == 'quick' else 60) and rnd < 40:
            rnd += 1
            cs = replay.cases_random(c, 300, SEED * 1000 + 500 + rnd, big=consts)
            if not cs:
                break
            k, d, v, x = replay.find(exe, c, cs)
            out['val'] += v
        out['swall'] = time.time() - t1
        if k is None and not out['ok'] and not c.opts.get('unroll_all') and deadline - time.time() > 30:
            # no input fails: the loops may have few iterations, which are then followed one by one
            saved = dict(out)
            prove(min(150, deadline - time.time() - 10), dict(unroll_all=True, unroll_limit=14))
            if not out['ok']:
                out.update(saved)
        if k is not None:
            out['viol'] = dict(input=replay.describe(k), diff=d, log=(x.log[:3000] if x is not None and x.dead is not None else ''), case=replay.encode(k, 0).hex(), provider=replay.values(k))
    except Exception:
        out['error'] = 'internal: ' + traceback.format_exc()[-1500:]
    out['wall'] = time.time() - t0
    return out


def main():
    global _mod
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    t0 = time.time()
    load()
    if pid == 'replay':
        return do_replay(sys.argv[2])
    exe = [None, None]

    def b():
        try:
            exe[0] = replay.build()
        except Exception as e:
            exe[1] = e
    th = threading.Thread(target=b)
    th.start()
    try:
        ll = extract.extract()
        th.join()
        if exe[1]:
            raise exe[1]
    except extract.ExtractError as e:
        print('cannot build /repo: %s' % e)
        return 2
    if pid == 'setup':
        return 0
    _mod = ir.parse(ll)
    cids = [k for k, c in verify.REG.items() if pid in c.props and (tier == 'thorough' or not c.thorough)]
    if not cids:
        print('no contracts for %s' % pid)
        return 2
    deadline = t0 + (760 if tier == 'quick' else 7200)
    # the contracts used as summaries must hold as well
    need = list(cids)
    for k in need:
        for u in verify.REG[k].uses:
            if u not in need:
                need.append(u)
    hz = [k for k in need if verify.REG[k].helper]
    res = {}
    mp = multiprocessing.get_context('fork')
    order = sorted(need, key=lambda k: -verify.REG[k].weight)
    with mp.Pool(min(8, len(order)), maxtasksperchild=4) as pool:
        for r in pool.imap_unordered(work, [(k, tier, exe[0], deadline, ()) for k in order], chunksize=1):
            res[r['id']] = r
        # a helper whose own contract is not met (or which is gone) is no violation by itself: its callers are verified through its body instead
        bad = [k for k in hz if not res[k]['missing'] and (not res[k]['ok'] or res[k]['viol'])]
        redo = [k for k in need if set(verify.REG[k].uses) & set(bad)]
        for r in pool.imap_unordered(work, [(k, tier, exe[0], deadline, tuple(bad)) for k in redo], chunksize=1):
            res[r['id']] = r
    viol = []
    rdir = os.path.join(EVID, 'replay')
    os.makedirs(rdir, exist_ok=True)
    ignored = [k for k in bad]
    for k in sorted(res):
        r = res[k]
        if r['missing'] or k in ignored:
            continue
        if r['ok'] and not r['viol']:
            continue
        path = os.path.join(rdir, '%s-%s.json' % (pid, k.replace('/', '_')))
        rec = dict(property=pid, contract=k, function=r['fn'], failed_obligations=r['failed'][:40], error=r['error'], failing_input=r['viol'])
        with open(path, 'w') as f:
            json.dump(rec, f, indent=1, default=str)
        viol.append((k, path, r))
    for k in sorted(res):
        if res[k]['error'] and res[k]['ok'] and not res[k]['viol']:
            print('  note: the validation runs of %s failed: %s' % (k, res[k]['error'][-300:]))
    from findings import report
    kf = report(pid, exe[0])
    for k, path, r in viol:
        if r['viol']:
            print('  %s: on %s: %s' % (k, r['viol']['input'][:600], '; '.join(r['viol']['diff'])[:600]))
        for f in r['failed'][:6]:
            print('  %s: obligation not discharged (%s): %s [%s] at %s' % (k, f['status'], f['name'], f['case'], f['where']))
        if r['error']:
            print('  %s: %s' % (k, r['error'][-600:]))
        print('VIOLATION property=%s replay=%s%s' % (pid, path, '' if r['viol'] else ' no-failing-input-found'))
    ps = [res[k] for k in sorted(res) if not res[k]['missing']]
    tot = lambda f: sum(r[f] for r in ps if not verify.REG[r['id']].bounded or f == 'val')
    st = lambda f: sum(r['stats'].get(f, 0) for r in ps)
    exts = sorted(set(e for r in ps for e in r['ext']))
    cov = dict(obligations=tot('obls'), discharged=tot('proved'), checker_cmd='python3-vt check.py %s %s' % (pid, tier),
               trusted_base=TRUST + ['assumed contract of C library / runtime function: ' + e for e in exts],
               functions_under_contract=[dict(contract=r['id'], function=r['fn'], obligations=r['obls'], discharged=r['proved'], by_simplifier=r['simp'], by_cvc5=r['cvc5'],
                                              by_z3=r['proved'] - r['simp'] - r['cvc5'], paths=r['paths'], cases=r['cases'], outcomes=r['covered'], bounded=bool(verify.REG[r['id']].bounded),
                                              uses_contracts=r['used'], seconds=round(r['wall'], 2), validation_runs=r['val']) for r in ps],
               functions_verified_by_inlining=sorted(set(f for r in ps for f in r['inl'])),
               obligation_kinds={k: sum(r['kinds'].get(k, 0) for r in ps if not verify.REG[r['id']].bounded) for k in sorted(set(k for r in ps for k in r['kinds']))},
               solver=dict(queries=st('queries'), z3_seconds=round(st('z3_time'), 1), cvc5_seconds=round(st('cvc5_time'), 1), cross_checked_by_cvc5=st('cross_agree'), cvc5_silent=st('cross_silent')),
               validation_runs_on_compiled_code=tot('val'), validation_samples=[r['sample'] for r in ps if r['sample']][:8],
               helpers_inlined_because_their_contract_failed=ignored, known_findings=kf)
    ev = dict(property=pid, tier=tier if tier in ('quick', 'thorough') else 'quick', seed=SEED, level='proof', coverage=cov,
              assumptions=MODEL + sorted(set(a for r in ps for a in verify.REG[r['id']].assumes)) + ['bounded only, not counted as proved: %s (%s)' % (r['id'], verify.REG[r['id']].bounded) for r in ps if verify.REG[r['id']].bounded],
              wall_s=round(time.time() - t0, 2), violations=len(viol))
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s %s: %d contracts, %d/%d obligations discharged, %d validation runs, %.0f s' % (pid, 'VIOLATED' if viol else 'holds', len(ps), tot('proved'), tot('obls'), tot('val'), time.time() - t0))
    return 1 if viol else 0


def do_replay(path):
    r = json.load(open(path))
    c = verify.REG[r['contract']]
    print('contract', c.id, 'function', c.fn)
    for f in r['failed_obligations']:
        print('  obligation', f)
    if not r['failing_input']:
        return 0
    exe = replay.build()
    k = replay.make_case(c, replay.FixedProvider(r['failing_input']['provider']))
    if k is None:
        print('the recorded input is no longer admissible')
        return 2
    x = replay.run(exe, [k])[0]
    d = replay.check_case(k, x)
    print('input:', replay.describe(k))
    print('differences:', d)
    if x is not None and x.dead is not None:
        print(x.log[:3000])
    return 1 if d else 0


if __name__ == '__main__':
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
