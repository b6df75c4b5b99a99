#!/bin/bash
# check.sh PROPERTY [TIER]: rebuilds what the check needs from the tree under test and runs it.
set -u
prop=$1
export VERIF_TIER=${2:-${VERIF_TIER:-quick}}
here=$(cd "$(dirname "$0")" && pwd)
export VERIF_REPO=${VERIF_REPO:-/repo}
build=${VERIF_BUILD:-$here/.build}
export VERIF_OUT=${VERIF_OUT:-$build/run} VERIF_EVIDENCE=${VERIF_EVIDENCE:-$here/evidence}
export VERIF_KNOWN=${VERIF_KNOWN:-$here/known_findings.txt}
export VERIF_BUILD_DIR=$build VERIF_DIR=$here
export ASAN_OPTIONS=detect_leaks=0:abort_on_error=0:hard_rss_limit_mb=4000:detect_stack_use_after_return=1:allocator_may_return_null=0
export UBSAN_OPTIONS=print_stacktrace=1
ulimit -s 1000000 2>/dev/null || true
ulimit -c 0 2>/dev/null || true
unset CFLAGS CXXFLAGS LDFLAGS CPPFLAGS
bin=$(echo "$prop" | tr 'A-Z' 'a-z')
mkdir -p "$build"
targets=("$bin")
[ "$prop" = BUILD-ALL ] && targets=(all-checks)
case $prop in C20|C21|C04|C19) targets+=(bm-cli) ;; esac
(
    flock 9
    { [ -f "$build/build.ninja" ] || cmake -S "$here" -B "$build" -G Ninja -DREPO="$VERIF_REPO" \
        -DCMAKE_CXX_COMPILER=/usr/bin/g++ -DCMAKE_BUILD_TYPE=None ; } >"$build/cmake.log" 2>&1 \
        && ninja -C "$build" "${targets[@]}" >"$build/ninja.$bin.log" 2>&1
) 9>"$build/lock" || { cat "$build/cmake.log"; tail -40 "$build/ninja.$bin.log"; echo "build failed"; exit 3; }
[ "$prop" = BUILD-ALL ] && exit 0
exec "$build/$bin" "${@:3}"
