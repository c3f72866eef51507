#!/bin/bash
# builds the extractor and the differential runner (the checks rebuild whatever has changed)
cd "$(dirname "$0")" || exit 1
mkdir -p evidence
(cd tools/extract && cargo build --offline --release --quiet) || exit 1
(cd tools/diff && cargo build --offline --release --quiet) || true
cargo build --offline --quiet --manifest-path /repo/Cargo.toml -p wadec-cli --target-dir tools/diff/target/cli || true
(cd /repo && RUSTC_BOOTSTRAP=1 cargo rustc --offline --lib -p wadec --profile check --target-dir "$OLDPWD/tools/diff/target/expand" -q -- -Zunpretty=expanded) >/dev/null || true
verus --version >/dev/null || exit 1
