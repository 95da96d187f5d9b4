#!/bin/sh
# Compares the stand-ins for libraries that are only there as binaries with the real ones.  Not part of a check.
set -e; cd "$(dirname "$0")"; d=$(mktemp -d); trap 'rm -r "$d"' EXIT
for t in po re; do g++ -std=c++20 -w -O1 $t.cc -o $d/real -lboost_program_options; g++ -std=c++20 -w -O1 -I ../shadow $t.cc -o $d/model; $d/real > $d/real.out; $d/model > $d/model.out; cmp $d/real.out $d/model.out; echo "$t: $(wc -l < $d/real.out) cases agree"; done
