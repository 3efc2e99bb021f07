#!/bin/bash
# Builds the simulator against the present content of /repo.
set -e -o pipefail
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
repo=${VERIF_REPO:-/repo}
# the build follows the content of the sources, not their time stamps
sum=$( (cd "$repo" && find . \( -path ./.git -o -path ./target \) -prune -o -type f \( -name '*.rs' -o -name 'Cargo.*' -o -path './.cargo/*' \) -print0 | sort -z | xargs -0 sha256sum) | sha256sum | cut -c1-16)
export CARGO_TARGET_DIR=${VERIF_TARGET:-$here/target}
export CARGO_NET_OFFLINE=true
unset RUSTC_WRAPPER CARGO_ENCODED_RUSTFLAGS
export RUSTFLAGS="--cfg content_$sum -A unexpected_cfgs -A warnings"
if [ -d "$CARGO_TARGET_DIR" ] && [ "$(du -sm "$CARGO_TARGET_DIR" | cut -f1)" -gt 1500 ]; then
    (cd "$here" && cargo clean --offline >&2) || true
fi
cd "$here"
cargo build --release --offline --quiet >&2
