#!/bin/bash
# seedtest.sh ID [PROP...]: builds a scratch copy with the seeded bug, runs the tests, the demo and the checks there.
id=$1; shift
here=$(cd "$(dirname "$0")/.." && pwd)
s=$here/seeded/$id
w=${SEED_DIR:-/tmp/sw}
mkdir -p "$w/repo" "$w/logs"
rsync -rlp --checksum --delete --exclude _build --exclude .git /repo/ "$w/repo/"
(cd "$w/repo" && [ -d .git ] || git init -q . )
cd "$w/repo" || exit 9
git apply "$s/patch.diff" || { echo "$id: patch does not apply"; exit 9; }
[ -f _build/build.ninja ] || cmake -S . -B _build -G Ninja -DCMAKE_C_COMPILER=/usr/bin/gcc -DCMAKE_CXX_COMPILER=/usr/bin/g++ -DCMAKE_BUILD_TYPE=RelWithDebInfo -DCMAKE_CXX_FLAGS=-Wno-error >/dev/null 2>&1
ninja -C _build >"$w/logs/$id.build" 2>&1 || { echo "$id: BUILD FAILED"; grep -m3 error "$w/logs/$id.build"; exit 9; }
python3 /opt/vp/run_gtest.py "$w/repo/_build/bm-test" >"$w/logs/$id.tests" 2>&1
grep '^FAIL' "$w/logs/$id.tests" | head -3
echo "$id: tests failing: $(grep -c '^FAIL' "$w/logs/$id.tests")"
cp -r "$s" "$w/demo" && bash "$w/demo/demo.sh" >"$w/logs/$id.demo" 2>&1; echo "$id: demo with patch: $?"
(cd /repo && bash "$w/demo/demo.sh" >"$w/logs/$id.demo0" 2>&1); echo "$id: demo without: $?"
rm -rf "$w/demo"
props=("$@"); [ ${#props[@]} = 0 ] && props=("$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")")
for p in "${props[@]}"; do
    VERIF_SEED=1 VERIF_REPO=$w/repo VERIF_BUILD=$w/checks VERIF_EVIDENCE=$w/ev "$here/check.sh" "$p" >"$w/logs/$id.$p" 2>&1
    r=$?
    echo "$id: $p exit $r: $(grep -m1 VIOLATION "$w/logs/$id.$p")"
done
