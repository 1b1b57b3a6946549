#!/bin/bash
# usage: check.sh <property id> <quick|thorough>
# Builds the simulator together with /repo's current working tree, then runs the seeded search.
set -u
cd "$(dirname "$0")" || exit 2
here=$(pwd)
log=$(mktemp)
# Freshness by content, not by file times: if the sources differ from those of the last build, the
# repository's crates are rebuilt even where their modification times say otherwise.
stamp=$here/sim/target/sources.sum
sum=$(find "$(readlink -f ../repo 2>/dev/null || echo /repo)" -name target -prune -o -name .git -prune -o -type f \( -name '*.rs' -o -name '*.toml' -o -name 'Cargo.lock' \) -print0 2>/dev/null | sort -z | xargs -0 sha256sum | sha256sum)
if [ "$(cat "$stamp" 2>/dev/null)" != "$sum" ]; then
    cargo clean --release --offline --manifest-path "$here/sim/Cargo.toml" -p aegir -p aegir_derive -p aegir_compile >/dev/null 2>&1
    mkdir -p "$here/sim/target"; echo "$sum" >"$stamp"
fi
trap 'rm -f "$log"' EXIT
if ! cargo build --release --offline --manifest-path "$here/sim/Cargo.toml" >"$log" 2>&1; then
    tail -n 60 "$log"
    echo "$1: the simulator does not build against this tree; no verdict"
    exit 2
fi
exec "$here/sim/target/release/aegir-sim" check "$1" --tier "${2:-quick}" --seed "${VERIF_SEED:-1}"
