#!/usr/bin/env python3
# Compares a result file of /opt/vp/test.sh with the baseline of stable tests.
import json, sys
base = json.load(open('/opt/vp/BASELINE.json'))
out = json.load(open(sys.argv[1]))
def passed(d):
    for k in ('passed', 'pass', 'stable', 'tests'):
        if k in d:
            v = d[k]
            return set(v if isinstance(v, list) else [t for t, r in v.items() if r in ('pass', 'passed', True, 'ok')])
    raise SystemExit('keys: %s' % list(d))
b, o = passed(base), passed(out)
print('baseline', len(b), 'passed', len(o), 'missing', sorted(b - o))
sys.exit(1 if b - o else 0)
