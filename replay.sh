#!/bin/bash
# replay.sh FILE: run the failing input of a replay file against the current /repo
F=$(realpath "$1")
cd "$(dirname "$0")/tools/diff" || exit 2
field() { sed -n "s/^$1: //p" "$F" | head -1; }
if grep -q '^property: C17' "$F"; then
    cargo build --offline --quiet --manifest-path /repo/Cargo.toml -p wadec-cli --target-dir target/cli || exit 2
    S=$(mktemp -d); trap 'rm -rf "$S"' EXIT
    field file | python3 -c "import sys; sys.stdout.buffer.write(bytes.fromhex(sys.stdin.read().strip()))" >"$S/module"
    field stdin | python3 -c "import sys; sys.stdout.buffer.write(bytes.fromhex(sys.stdin.read().strip()))" >"$S/stdin"
    exe=$PWD/target/cli/debug/wadec
    cd "$S" && "$exe" $(field args) <"$S/stdin"
    echo "exit status $?; expected: $(field expected)"
    exit
fi
cargo build --offline --release --quiet || exit 2
if grep -q '^property: C18' "$F"; then
    exec ./target/release/wadec-diff chains-replay "$(field reader)" "$(field bytes)" ../../spec/chains.txt
fi
exec ./target/release/wadec-diff replay "$(field reader)" "$(field bytes)"
