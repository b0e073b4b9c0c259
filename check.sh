#!/bin/bash
# check.sh ID [quick|thorough]: builds the simulator against /repo's working tree and runs the check.
cd "$(dirname "$0")/sim" || exit 2
export CARGO_NET_OFFLINE=true
if ! out=$(cargo build --offline 2>&1); then
    echo "$out" | tail -40
    echo "the simulator does not build against this tree"
    exit 2
fi
exec ../target/debug/ocasim check "$@"
