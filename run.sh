#!/bin/bash
# run.sh ID       builds the checker against /repo's working tree and decides property ID
# run.sh setup    builds only
# run.sh replay F re-runs one recorded case
cd "$(dirname "$0")" || exit 2
export PATH="$HOME/.cargo/bin:/root/.cargo/bin:$PATH"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh >/dev/null 2>&1
export CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET_DIR
REPO=/repo

build() { # en|all
    local dir=target/$1 feat=
    [ "$1" = all ] && feat="--features langs"
    mkdir -p "$dir"
    (
        flock 9
        # cargo goes by modification times; a tree restored with old times must be rebuilt all the same.
        local sum
        sum=$(cd "$REPO" && { find src js -type f -print0 | sort -z | xargs -0 sha256sum; sha256sum Cargo.toml; } | sha256sum)
        if [ "$(cat "$dir/tree" 2>/dev/null)" != "$sum" ]; then
            rm -f "$dir/tree"
            [ -d "$dir/release" ] && cargo clean --offline --quiet --release --manifest-path harness/Cargo.toml --target-dir "$dir" -p elasticlunr-rs 2>/dev/null
        fi
        if ! cargo build --offline --quiet --release --manifest-path harness/Cargo.toml --target-dir "$dir" $feat --message-format=json-render-diagnostics >"$dir/artifacts.json" 2>"$dir/build.log"; then
            cat "$dir/build.log" >&2
            exit 2
        fi
        echo "$sum" >"$dir/tree"
    ) 9>"$dir/lock" || exit 2
}

variant() {
    case $1 in
    C02|C03|C07|C10|C17|C18|C19|C20) echo en ;;
    *) echo all ;;
    esac
}

case $1 in
setup)
    build en && build all || exit 2
    ;;
replay)
    id=$(sed -n 's/.*"property": *"\(C[0-9]*\)".*/\1/p' "$2" | head -1)
    v=$(variant "$id")
    build "$v"
    exec target/$v/release/vmc replay "$2"
    ;;
C*)
    v=$(variant "$1")
    build "$v"
    exec target/$v/release/vmc check "$1"
    ;;
*)
    echo "usage: run.sh ID | setup | replay FILE" >&2
    exit 2
    ;;
esac
