#!/usr/bin/env python3
"""origlines.py: says which seeded patches change lines that are not the original repository's."""
import glob, os, re, subprocess
base = 'ab46cfc'
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'seeded')
cache = {}
for p in sorted(glob.glob(root + '/*/patch.diff')):
    f, orig, added = None, 0, 0
    for line in open(p):
        if line.startswith('--- a/'):
            f = line[6:].strip()
            if f not in cache:
                b = subprocess.run(['git', '-C', '/repo', 'blame', '-s', '-l', f'{base}..HEAD', '--', f], capture_output=True, text=True).stdout
                cache[f] = [l.startswith('^') for l in b.splitlines()]
        elif line.startswith('@@'):
            n = int(re.match(r'@@ -(\d+)', line).group(1))
        elif line.startswith('-') and not line.startswith('---'):
            orig += cache[f][n - 1]
            added += not cache[f][n - 1]
            n += 1
        elif line.startswith(' '):
            n += 1
    print(os.path.basename(os.path.dirname(p)), 'original lines removed:', orig, 'own:', added)
