#!/bin/bash
# developer helper
set -e
R=${R:-/repo}; O=${O:-/verif/build}; mkdir -p $O
clang++ -w -O2 -march=native -std=c++17 -I/verif/harness -I$R/include -DSRC_VERIFIER="\"$R/src/linear_gkr/verifier_fast_track.cpp\"" $X /verif/harness/linear.cpp $R/src/linear_gkr/prover_fast_track.cpp $R/src/linear_gkr/prime_field.cpp $R/src/linear_gkr/polynomial.cpp -o $O/linear -lgmpxx -lgmp
