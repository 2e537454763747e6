#!/bin/bash
# Builds the harness against /repo's current working tree.
# Cargo looks at file times only; a content stamp makes sure that a changed tree is rebuilt.
set -e
cd "$(dirname "$0")/.."
export CARGO_TARGET_DIR="$PWD/target" CARGO_NET_OFFLINE=true RUSTC_WRAPPER="$PWD/bin/rustc-cov"
mkdir -p target
exec 9>target/.verif-lock
flock 9
repo=/repo
stamp=$( (cd $repo && find src build.rs Cargo.toml -type f -print0 | sort -z | xargs -0 sha256sum; cd "$OLDPWD" && find bin/rustc-cov harness/subject harness/src harness/Cargo.toml harness/Cargo.lock harness/dict_baseline.txt -type f -print0 | sort -z | xargs -0 sha256sum; rustc --version) | sha256sum | cut -d' ' -f1)
if [ ! -x target/debug/pbt ] || [ "$(cat target/.verif-stamp 2>/dev/null)" != "$stamp" ]; then
    rm -f target/.verif-stamp
    (cd harness && cargo clean --offline -q -p poreader -p subject -p pbt 2>/dev/null || true)
    log=target/build.log
    if ! (cd harness && cargo build --offline --locked) >"$log" 2>&1; then
        tail -40 "$log" >&2
        exit 2
    fi
    echo "$stamp" >target/.verif-stamp
fi
