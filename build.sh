#!/bin/bash
# Builds the simulator with /repo's current tree (hooks on) and, with
# "programs", the shipped programs (hooks off, both profiles) and the shim.
# Everything goes below /verif/target; /repo is only read.
set -e
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
target="$here/target"
mkdir -p "$target"
exec 9>"$target/build.lock"
flock 9
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET
# A build product is reused only for exactly the same sources: file times say
# too little when trees are copied, patched and restored.
sources() {
    (cd /repo && find . -path ./target -prune -o -path ./.git -prune -o -type f -print0 | sort -z | xargs -0 sha256sum)
    (cd "$here/sim" && find . -path ./target -prune -o -type f -print0 | sort -z | xargs -0 sha256sum)
    rustc --version --verbose
}
key="$(sources | sha256sum | cut -d' ' -f1)"
step() { # name, command...
    local name="$1" log="$target/$1.log"
    shift
    [ "$(cat "$target/$name.key" 2>/dev/null)" = "$key" ] && return 0
    rm -f "$target/$name.key"
    if ! "$@" >"$log" 2>&1; then
        grep -A12 -E '^error' "$log" | head -60 >&2
        echo "BUILD FAILED: $name (see $log)" >&2
        exit 2
    fi
    echo "$key" >"$target/$name.key"
}
build_sim() {
    rm -rf "$target/sim"
    cd "$here/sim"
    export RUSTFLAGS="--cfg demixer_sim --cap-lints allow"
    local features
    for features in tree,sources,learning,stages tree,sources,learning tree,sources,stages \
        tree,learning,stages sources,learning,stages tree,sources tree,learning tree,stages \
        sources,learning sources,stages learning,stages tree sources learning stages ""; do
        cargo build --release --offline --locked --target-dir "$target/sim" \
            --no-default-features --features "$features" && return 0
    done
    return 1
}
build_bins() {
    rm -rf "$target/bins"
    export RUSTFLAGS="--cap-lints allow"
    cargo build --manifest-path /repo/Cargo.toml --locked --offline --bins --target-dir "$target/bins" &&
        cargo build --release --manifest-path /repo/Cargo.toml --locked --offline --bins --target-dir "$target/bins"
}
build_shim() {
    gcc -O2 -w -shared -fPIC -o "$target/shim.so" "$here/sim/shim/shim.c" -ldl
}
step sim build_sim
if [ "$1" = programs ]; then
    step bins build_bins
    step shim build_shim
fi
