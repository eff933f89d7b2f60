"""Known findings: genuine defects recorded, not repaired.  Each names the contract it belongs to, the
specific input, and is demonstrated on the compiled code on every run."""
import json, os
from engine import verify, replay

FILE = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'known_findings.json')


def report(pid, exe):
    out = []
    for f in json.load(open(FILE))['findings']:
        if f.get('property') != pid or f.get('status') == 'fixed':
            continue
        c = verify.REG.get(f['contract'])
        k = replay.make_case(c, replay.FixedProvider(f['input'])) if c else None
        if k is None:
            continue
        d = replay.check_case(k, replay.run(exe, [k])[0])
        if d:
            print('KNOWN-FINDING: property=%s %s' % (pid, f['what']))
            out.append(f['what'])
    return out
