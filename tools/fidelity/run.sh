#!/bin/bash
# Runs the repository's own tests over the shim (the shim replaces the absent wblib, jsoncpp and gurux), to see that the
# shim behaves as the tests expect. Not a check: evidence for DESIGN.md. usage: run.sh [repo] ; scratch in /tmp/fidelity
V=$(cd "$(dirname "$0")/../.." && pwd)
R=${1:-/repo}
B=/tmp/fidelity$(echo $R | tr / _)
mkdir -p $B/o $B/ot; mkdir -p $B/o $B/ot
cc() { # sources on stdin, out dir, flags
  xargs -P8 -I{} sh -c 'f={}; o='"$1"'/$(echo $f | tr / _).o; [ $o -nt $f ] && [ -z "$ALL" ] && exit 0; g++ -std=c++20 -O0 '"$2"' -w -c $f -o $o > $o.log 2>&1 || { echo FAIL $f; head -5 $o.log; }'
}
(find $R/src -name '*.cpp' | grep -v -e /main.cpp -e dlms_device.cpp; ls $V/shim/*.cpp $V/shim/gurux/*.cpp) | cc $B/o "-I$R/src -I$V/shim -I$V/shim/gurux"
ls $R/test/*.cpp | grep -v dlms_test | cc $B/ot "-I$R/src -I$R/test -I$V/tools/fidelity -I$V/shim -I$V/shim/gurux"
g++ -o $B/tests $B/o/*.o $B/ot/*.o -lgtest -lgmock -lpthread -lcurl || exit 1
rm -rf $B/t && mkdir $B/t && cp -a $R/test $R/templates $R/*.json $R/wb-mqtt-serial* $B/t/ 2> /dev/null
cp -a $R/schemas $R/src $B/t/ 2> /dev/null
cd $B/t/test && TEST_DIR_ABS=$B/t/test timeout 300 $B/tests --gtest_filter=${FILTER:--*Integration*} > $B/log 2>&1
grep -E '^\[  (PASSED|FAILED)' $B/log | sort -u
