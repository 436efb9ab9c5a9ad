#!/bin/bash
# seedrun.sh <id>...: confirms planted bugs in a scratch copy: builds, stable tests pass, demo 0 without and nonzero with the patch.
# Scratch copy /tmp/seedrepo is kept between runs (remove it when done).
S=/tmp/seedrepo
export LC_ALL=C.UTF-8 CC=/usr/bin/gcc CXX=/usr/bin/g++ OMP_NUM_THREADS=1
if [ ! -d $S ]; then git clone -q /repo $S; fi
git -C $S fetch -q origin; git -C $S checkout -q -f $(git -C /repo rev-parse HEAD)
bld() { cmake -S $S -B $S/_build -G Ninja -DCMAKE_BUILD_TYPE=Release -DCMAKE_CXX_FLAGS="-include cstdint -w" -DCMAKE_CXX_COMPILER=/usr/bin/g++ -DBUILD_TESTING=ON -DENABLE_COMPILED_ROTATION_TEST=ON -DCMAKE_PREFIX_PATH=/opt/vp/deps/idyntree -DCMAKE_PROJECT_DynamicalPlanner_INCLUDE=/opt/vp/cmake/hooks.cmake >/tmp/seedrun.log 2>&1 && ninja -C $S/_build >>/tmp/seedrun.log 2>&1; }
tests() { export CXXFLAGS="-include cstdint" shlibpp_DIR=$S/_build
 find $S/_build/extern/levi/tests -mindepth 1 -maxdepth 1 -type d ! -name CMakeFiles -exec rm -rf {} +
 ctest --test-dir $S/_build/extern/levi -j4 --timeout 300 2>&1 | grep -E "tests passed|Failed" ; ctest --test-dir $S/_build -j8 --timeout 600 -E '^UnitTest(Logger|Solver|SolverForComparisons)$' 2>&1 | grep -E "tests passed|Failed"; }
for id in "$@"; do
  P=/verif/seeded/$id/patch.diff
  git -C $S checkout -q -f .
  bld || { echo "$id: clean build failed"; continue; }
  D=$(mktemp -d); cp /verif/seeded/$id/* $D/; rm -f $D/*.diff $D/meta.json
  (cd $S && bash $D/demo.sh >/tmp/seeddemo0.log 2>&1); r0=$?
  git -C $S apply $P || { echo "$id: patch does not apply"; continue; }
  if bld; then (cd $S && bash $D/demo.sh >/tmp/seeddemo1.log 2>&1); r1=$?; t=$( [ -n "$NOTESTS" ] || tests | tr '\n' ';'); else r1=BUILD; t=; fi
  echo "$id: demo clean=$r0 patched=$r1 tests: $t"
  git -C $S checkout -q -f .; rm -rf $D
done
