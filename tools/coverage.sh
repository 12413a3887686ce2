#!/bin/bash
# coverage.sh [runs]: which lines of /repo/src the simulated runs reach. Not a
# check; used to find parts of the API that no scenario exercises.
b=/root/.rustup/toolchains/stable-x86_64-unknown-linux-gnu/lib/rustlib/x86_64-unknown-linux-gnu/bin
w=/tmp/simcov; mkdir -p $w; rm -f $w/*.profraw
cd /verif/sim || exit 1
RUSTFLAGS="-C instrument-coverage" CARGO_TARGET_DIR=$w/target LLVM_PROFILE_FILE=$w/build.profraw cargo build --release --offline -q || exit 1
mkdir -p $w/verif; cp /verif/known-findings.txt /verif/properties.jsonl $w/verif/
for i in $(seq -f 'C%02g' 1 16); do
	VERIF_DIR=$w/verif SIM_RUNS=${1:-4000} LLVM_PROFILE_FILE="$w/$i-%p.profraw" $w/target/release/rdf-sim check $i quick | tail -1 | cut -c1-80
done
$b/llvm-profdata merge -sparse $w/C*.profraw -o $w/all.profdata
$b/llvm-cov report $w/target/release/rdf-sim -instr-profile=$w/all.profdata $(find /repo/src -name '*.rs') > $w/report.txt
$b/llvm-cov show $w/target/release/rdf-sim -instr-profile=$w/all.profdata --show-instantiations=false $(find /repo/src -name '*.rs') > $w/show.txt
cat $w/report.txt | awk '{print $1, $8, $9, $10}'
