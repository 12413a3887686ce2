#!/bin/bash
# usage: check.sh <property> <quick|thorough>   (or: check.sh --build)
# Builds the simulator against /repo's current working tree and runs one check.
# exit 0: held; exit 1 + VIOLATION line: broken; 2: does not build; 3: harness error.
here="$(cd "$(dirname "$0")" && pwd)"
export VERIF_DIR="$here"
export CARGO_TARGET_DIR="$here/sim/target"
export PATH="/root/.cargo/bin:/usr/local/cargo/bin:$PATH"
export CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS RUSTC_WRAPPER
log="$(mktemp)"
trap 'rm -f "$log"' EXIT
# C20 has a binary of its own, built with the UUID generators: whatever happens
# to that optional feature, the other checks are not affected.
main() {
	# the same simulator on the library with overflow checks and debug assertions
	(cd "$here/sim" && cargo build --profile checked --bin rdf-sim --offline) >"$log.2" 2>&1 &
	(cd "$here/sim" && cargo build --release --offline) >"$log" 2>&1
	local r=$?
	wait $! || rm -f "$here/sim/target/checked/rdf-sim"
	rm -f "$log.2"
	return $r
}
uuid() { (cd "$here/sim" && cargo build --release --offline --features uuid --bin rdf-sim-uuid) >"$log" 2>&1; }
broken() {
	tail -60 "$log" >&2
	echo "the simulator does not build against /repo" >&2
	exit 2
}
if [ "$1" = "--build" ]; then
	main || broken
	uuid || tail -20 "$log" >&2
	exit 0
fi
bin=rdf-sim
if [ "$1" = C20 ]; then
	bin=rdf-sim-uuid
	if ! uuid; then
		# without the feature everything builds, with it the library does not
		if grep -q 'could not compile `rdf-types`' "$log"; then
			mkdir -p "$here/replays"
			cp "$log" "$here/replays/C20-build.log"
			if main; then
				tail -40 "$here/replays/C20-build.log" >&2
				echo "VIOLATION property=C20 replay=$here/replays/C20-build.log class=build (the UUID generators do not compile)"
				exit 1
			fi
		fi
		broken
	fi
else
	main || broken
fi
ulimit -c 0
ulimit -v 6291456
"$here/sim/target/release/$bin" check "$1" "$2"
