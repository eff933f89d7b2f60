import sys, os, json
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from meta.props import P, NA, PENDING
import importlib, glob
from engine import verify
sys.path.insert(0, HERE)
import check
check.load()
claimed = set(sys.argv[1:]) or None
have = {}
for k, c in verify.REG.items():
    for p in c.props:
        have.setdefault(p, []).append(c)
with open(HERE + '/properties.jsonl', 'w') as f:
    for p in P.values():
        f.write(json.dumps(p) + '\n')
skip = set(json.load(open(HERE + '/meta/skip.json'))) if os.path.exists(HERE + '/meta/skip.json') else set()
checks, na = [], []
for id in P:
    if id in have and id not in skip:
        cs = have[id]
        nb = sum(1 for c in cs if c.bounded)
        fn = sorted(set(c.fn for c in cs if not c.bounded))
        checks.append(dict(property=id, quick_cmd='/opt/veriftools/pyvenv/bin/python check.py %s quick' % id, thorough_cmd='/opt/veriftools/pyvenv/bin/python check.py %s thorough' % id,
                           technique='contract-based deductive verification of the compiled IR of the real functions (own VC generator, z3/cvc5)', level='proof',
                           level_note='%d contracts on %d functions of the current source, every obligation discharged for all inputs and iterations%s. Trusts: clang 18 front end, the VC generator in engine/, z3; '
                                      'assumed contracts of C library functions and always-succeeding allocation, listed in the evidence. Each contract is also run against the compiled code (validation, not counted as proof).'
                                      % (len(cs) - nb, len(fn), '' if not nb else '; %d bounded stand-in(s), labelled in the evidence' % nb),
                           theorems=sorted(c.id for c in cs if not c.bounded)))
    else:
        na.append(dict(property=id, reason=NA.get(id, PENDING)))
m = dict(version=1, setup_cmd='/opt/veriftools/pyvenv/bin/python check.py setup', checks=checks, not_applicable=na,
         notes='Contracts: contracts/*.py; verifier: engine/; see DESIGN.md. No hooks in /repo: the checks verify the unmodified source.')
with open(HERE + '/MANIFEST.json', 'w') as f:
    json.dump(m, f, indent=1)
print([c['property'] for c in checks], [x['property'] for x in na])
