#!/usr/bin/env python3
"""Make a planted bug: seed.py <id> < spec.json-ish python (see usage in DESIGN.md).
The spec is python: property, needs, breaks, edits=[(file, old, new)...], demo (C++ source)."""
import os, subprocess, sys
sid = sys.argv[1]
ns = {}
exec(sys.stdin.read(), ns)
d = f'/verif/seeded/{sid}'
os.makedirs(d, exist_ok=True)
assert not subprocess.check_output(['git', '-C', '/repo', 'status', '--porcelain'], text=True).strip()
try:
    for f, a, b in ns['edits']:
        p = '/repo/' + f
        s = open(p, newline='').read()
        assert s.count(a) == 1, (f, a, s.count(a))
        open(p, 'w', newline='').write(s.replace(a, b))
    open(d + '/patch.diff', 'w').write(subprocess.check_output(['git', '-C', '/repo', 'diff'], text=True))
finally:
    subprocess.check_call(['git', '-C', '/repo', 'checkout', '-q', '--', '.'])
import json
json.dump({'property': ns['property'], 'needs': ns['needs'], 'what_it_breaks': ns['breaks']}, open(d + '/meta.json', 'w'), indent=1)
open(d + '/demo.cc', 'w').write(ns['demo'].lstrip())
for n, t in ns.get('extra', {}).items():
    open(d + '/' + n, 'w').write(t)
open(d + '/demo.sh', 'w').write('''#!/bin/bash
# Compiles demo.cc against the library built in /repo/_build and runs it in a scratch directory.
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
g++ -std=c++20 -w -I/repo/include -D_ZK_WITH_MMAP=1 "$here/demo.cc" /repo/_build/libzenkit.a -lsquish -o "$t/demo" || exit 2
cd "$t" && timeout 60 ./demo
''')
os.chmod(d + '/demo.sh', 0o755)
