#!/bin/bash
# Builds the repository's own (LLVM) tests against the shim and runs them: a sanity check after "fix:" commits.
# usage: upstream_tests.sh [OUTDIR]   (not part of any check)
set -e
R=${VERIF_REPO:-/repo}; V=$(cd "$(dirname "$0")/.." && pwd); O=${1:-/tmp/ut}; mkdir -p "$O"
python3 "$V/vlib/build.py" prog:plain >/dev/null
L=$(find "$V/build/plain/lib" -name '*.o' | tr '\n' ' ')
for t in basics mem loop vcall graphviz reductions array record; do
  ( clang++ -std=c++17 -O1 -w -DDRJIT_DYNAMIC_LLVM=1 -DTEST_NAME="\"$t\"" -I$R/include -I$R -I$R/ext/lz4 -I$V/shim \
    $R/tests/$t.cpp $R/tests/test.cpp $L -o "$O/$t" -ldl -lpthread > "$O/$t.build" 2>&1 || echo "BUILD FAILED $t" ) &
done; wait
for t in basics mem loop vcall graphviz reductions array record; do
  [ -x "$O/$t" ] || continue
  mkdir -p "$O/home.$t"; ( cd $R/tests; HOME="$O/home.$t" timeout 600 "$O/$t" -l > "$O/$t.out" 2>&1; echo "$t rc=$? $(tail -2 "$O/$t.out" | tr '\n' ' ' | cut -c1-200)" )
done
git -C $R status --short | head
