#!/bin/bash
# Run once: checks that the tools are there and validates the oracle model itself (no /repo code
# involved) by reproducing the published test vector digests.  Checks do not depend on any output of
# this script.
set -e
cd "$(dirname "$0")"
for t in gcc clang valgrind python3 make nm readelf; do command -v $t >/dev/null || { echo "missing tool: $t"; exit 1; }; done
d=$(mktemp -d); trap 'rm -rf "$d"' EXIT
gcc -O3 -Iharness harness/oracle.c harness/oracle_tv.c -o "$d/tv"
want512=4d34994299a8f8dcb36c550951a00f6e16918d6d5b6f280ee2aa12a7bf8375a0
want768=b59ac4d2b429b1f8c3b8a5542fb638179da2fd8b1212891d2f976e70e219fed1
want1024=3f577090c7cb7a345ce0417a2a2353153a9f1b8d79f8d927cb6a7b4ec17fd2a1
for k in 2 3 4; do "$d/tv" $k | sha256sum | cut -d' ' -f1 > "$d/$k" & done; wait
[ "$(cat $d/2)" = $want512 ] && [ "$(cat $d/3)" = $want768 ] && [ "$(cat $d/4)" = $want1024 ] || { echo "oracle does not reproduce the published vectors"; exit 1; }
echo "oracle validated against SHA256SUMS of the published vectors"
