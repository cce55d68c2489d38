#!/bin/bash
# tools_seed.sh ID [check-tier|nocheck]: confirms a planted bug (applies it, builds, tests,
# demonstrates, runs the property's check, undoes it, demonstrates again).
# In /repo, or in a clone given by SEED_REPO (with SEED_BUILD for the check).
ID=$1; S=/verif/seeded/$ID; P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
R=${SEED_REPO:-/repo}
[ "$R" = /repo ] || export VERIF_REPO=$R VERIF_BUILDDIR=${SEED_BUILD:-/tmp/seedbuild}
build() {
    cmake -S $R -B $R/_build -G Ninja -Wno-dev -DCMAKE_BUILD_TYPE=Debug -DCMAKE_CXX_FLAGS="-include cstdint" &&
    ninja -C $R/_build
}
T=$(mktemp -d /tmp/seedXXXXXX)
trap 'rm -rf "$T"' EXIT
export CC=gcc CXX=g++
cd $R || exit 1
[ -z "$(git status --porcelain)" ] || { echo "repo not clean"; exit 1; }
git apply "$S/patch.diff" || { echo "PATCH DOES NOT APPLY"; exit 1; }
build >$T/build 2>&1 || { echo "BUILD FAILED"; tail -20 $T/build; }
ctest --test-dir $R/_build -j1 --timeout 120 -E '^integration_queries$' 2>&1 | grep "tests passed"
bash "$S/demo.sh" >/tmp/seed_demo_$ID.log 2>&1; D1=$?
C=-
if [ "$2" != nocheck ]; then (cd /verif && python3 run.py check $P ${2:-quick}) >/tmp/seed_check_$ID.log 2>&1; C=$?; fi
git -C $R checkout -- . ; build >/dev/null 2>&1
bash "$S/demo.sh" >/tmp/seed_demo0_$ID.log 2>&1; D0=$?
echo "$ID property=$P demo_with=$D1 demo_without=$D0 check=$C $(grep -am1 VIOLATION /tmp/seed_check_$ID.log 2>/dev/null)"
