#!/usr/bin/env python3
# Append a "fixed:" line for every fix commit of /repo which is not listed yet: fixed.py <property> [n newest]
import subprocess, sys
p = sys.argv[1]
f = '/verif/known_findings.txt'
have = open(f).read()
new = []
for l in subprocess.check_output(['git', '-C', '/repo', 'log', '--format=%h %s'], text=True).splitlines():
    h, m = l.split(' ', 1)
    if m.startswith('fix: ') and h not in have:
        new.append(f'fixed: property={p} {h} {m[5:]} (this failed before)\n')
open(f, 'a').writelines(reversed(new))
print(len(new), 'added')
