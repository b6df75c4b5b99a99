#!/usr/bin/env python3
"""newseed.py DEFS.py: makes seeded/<id>/ from definitions (id, property, edits, needs, breaks, demo files)."""
import json, os, shutil, subprocess, sys, tempfile
defs = {}
exec(open(sys.argv[1]).read(), defs)
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'seeded')
VERIFY_DEMO = '''#!/bin/bash
# ok*.bms must be accepted, bad*.bms must be rejected (without an internal error).
here=$(cd "$(dirname "$0")" && pwd)
cli=$PWD/_build/bm-cli
st=0
for f in "$here"/ok*.bms; do
    [ -e "$f" ] || continue
    "$cli" verify "$f" >/dev/null 2>&1 || { echo "rejected: $(basename "$f")"; st=1; }
done
for f in "$here"/bad*.bms; do
    [ -e "$f" ] || continue
    out=$("$cli" verify "$f" 2>&1) && { echo "accepted: $(basename "$f")"; st=1; }
    grep -q "This is an internal error" <<<"$out" && { echo "internal error: $(basename "$f")"; st=1; }
done
exit $st
'''
CPP_DEMO = '''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
g++ -std=c++20 -O0 -w -I"$PWD" -I"$PWD/src" "$here/demo.cpp" "$PWD/_build/libbm.a" -o "$tmp/demo" || exit 2
"$tmp/demo"
'''
for d in defs['SEEDS']:
    out = os.path.join(root, d['id'])
    os.makedirs(out, exist_ok=True)
    with tempfile.TemporaryDirectory() as tmp:
        subprocess.run(['git', '-C', '/repo', 'worktree', 'prune'], check=True)
        subprocess.run(f'git -C /repo archive HEAD | tar -x -C {tmp}', shell=True, check=True)
        subprocess.run(['git', 'init', '-q'], cwd=tmp, check=True)
        subprocess.run('git add -A -f && git -c user.name=x -c user.email=x@x commit -qm x', shell=True, cwd=tmp, check=True)
        for path, old, new in d['edits']:
            p = os.path.join(tmp, path)
            t = open(p).read()
            assert t.count(old) == 1, (d['id'], path, t.count(old), old)
            open(p, 'w').write(t.replace(old, new))
        diff = subprocess.run(['git', 'diff'], cwd=tmp, capture_output=True, text=True, check=True).stdout
    open(os.path.join(out, 'patch.diff'), 'w').write(diff)
    json.dump({'property': d['property'], 'needs': d['needs'], 'what_it_breaks': d['breaks']},
              open(os.path.join(out, 'meta.json'), 'w'), indent=1)
    files = dict(d['files'])
    if 'demo.sh' not in files:
        files['demo.sh'] = CPP_DEMO if 'demo.cpp' in files else VERIFY_DEMO
    for n, c in files.items():
        open(os.path.join(out, n), 'w').write(c)
    os.chmod(os.path.join(out, 'demo.sh'), 0o755)
    print('made', d['id'])
