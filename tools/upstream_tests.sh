#!/bin/bash
# Builds the upstream tests that the baseline leaves out (they need cista)
# against the shim, with asan+ubsan, and runs them. Usage: upstream_tests.sh [repo]
R=${1:-/repo}; V=$(cd "$(dirname "$0")/.." && pwd); D=$(mktemp -d /tmp/ut.XXXXXX)
F="-std=c++23 -g1 -O0 -fsanitize=address,undefined -DFMT_HEADER_ONLY -I$R/include -I$R/test -I$V/shim -w"
ls $R/test/*.cc $R/test/*/*.cc $R/src/*.cc /usr/src/googletest/googletest/src/gtest-all.cc /usr/src/googletest/googlemock/src/gmock-all.cc | \
 xargs -P8 -I{} sh -c "g++ $F -I/usr/src/googletest/googletest -I/usr/src/googletest/googlemock -c {} -o $D/\$(echo {} | tr / _).o || echo FAIL {}"
g++ -fsanitize=address,undefined $D/*.o -lgtest_main -lgtest -lgmock -lpthread -o $D/t 2>$D/l || g++ -fsanitize=address,undefined $D/*.o -lgtest_main -lpthread -o $D/t
$D/t 2>&1 | tail -40; rm -rf "$D"
