#!/usr/bin/env python3
"""mk.py SPEC.py : writes /verif/seeded/<id>/ out of a spec defining ID, PROPERTY, EDITS, NEEDS, BREAKS, DEMO."""
import sys, subprocess, json, os
ns = {}
exec(open(sys.argv[1]).read(), ns)
d = f"/verif/seeded/{ns['ID']}"
os.makedirs(d, exist_ok=True)
assert subprocess.run(['git', '-C', '/repo', 'diff', '--quiet']).returncode == 0, "dirty /repo"
try:
    for f, old, new in ns['EDITS']:
        p = f'/repo/{f}'
        s = open(p).read()
        assert s.count(old) == 1, (f, s.count(old), old)
        open(p, 'w').write(s.replace(old, new))
    diff = subprocess.run(['git', '-C', '/repo', 'diff'], capture_output=True, text=True).stdout
finally:
    subprocess.run(['git', '-C', '/repo', 'checkout', '--', '.'])
open(f'{d}/patch.diff', 'w').write(diff)
open(f'{d}/demo.rs', 'w').write("mod support;\nuse support::*;\n" + ns['DEMO'])
json.dump({'property': ns['PROPERTY'], 'needs': ns['NEEDS'], 'what_it_breaks': ns['BREAKS']}, open(f'{d}/meta.json', 'w'), indent=1)
