#!/bin/bash
# check.sh build                  build the simulator and harness against /repo's current tree
# check.sh ID [quick|thorough]    build, then decide property ID
# check.sh replay FILE            build, then re-execute a replay file
# Exit: 0 held, 1 violation (with a VIOLATION line), 2 the check could not be carried out.
set -u
ROOT="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export HOME="${HOME:-/root}"
export PATH="$HOME/.cargo/bin:/root/.cargo/bin:$PATH"
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_INCREMENTAL=0
export CARGO_TARGET_DIR="$ROOT/target"
export RUSTFLAGS="--cfg fieldx_dst"
unset CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET
mkdir -p "$CARGO_TARGET_DIR" "$ROOT/evidence" "$ROOT/replays"

build() {
    # Cargo goes by modification times; a tree whose files changed without newer times must be rebuilt too.
    local sum old log="$CARGO_TARGET_DIR/build.log" try more
    sum="$( { cd /repo && find . -path ./target -prune -o -path ./.git -prune -o \( -name '*.rs' -o -name 'Cargo.toml' \) -type f -print0 | LC_ALL=C sort -z | xargs -0 sha256sum; } 2>/dev/null | sha256sum | cut -d' ' -f1)"
    old="$(cat "$CARGO_TARGET_DIR/.repo.sum" 2>/dev/null || true)"
    cd "$ROOT/sim" || return 2
    export FXSIM_EXCLUDE=""
    if [ "$sum" != "$old" ]; then
        cargo clean --offline --release -p fieldx -p fieldx_aux -p fieldx_core -p fieldx_derive -p fieldx_derive_support -p fxsim >/dev/null 2>&1
    else
        FXSIM_EXCLUDE="$(cat "$CARGO_TARGET_DIR/.excluded" 2>/dev/null || true)"
    fi
    # A shape of the catalogue that this tree does not compile is left out, and the properties are decided on the
    # others: each error counts against the shape it points into. Errors anywhere else fail the build.
    for try in 1 2 3 4 5 6 7 8; do
        if cargo build --offline --locked --release -p fxsim >"$log" 2>&1; then
            echo "$sum" >"$CARGO_TARGET_DIR/.repo.sum"
            echo "$FXSIM_EXCLUDE" >"$CARGO_TARGET_DIR/.excluded"
            if [ -n "$FXSIM_EXCLUDE" ]; then echo "NOTE: this tree does not compile these shapes, decided on the others: $FXSIM_EXCLUDE"; fi
            return 0
        fi
        more="$(awk '
            FNR == NR { if ($1 == "//" && $2 == "shape") { n++; at[n] = FNR; name[n] = $3 } next }
            /^error/ { err = 1; seen = 0; next }
            /^warning/ { err = 0; next }
            err && !seen && match($0, /harness\/src\/catalog\.rs:[0-9]+/) {
                seen = 1; s = substr($0, RSTART, RLENGTH); sub(/.*:/, "", s)
                for (i = n; i > 0 && at[i] > s + 0; i--);
                if (i > 0 && name[i] != "-") print name[i]
            }' harness/src/catalog.rs "$log" | sort -u | grep -vxF "$(tr ' ' '\n' <<<"${FXSIM_EXCLUDE:--}")" | tr '\n' ' ')"
        [ -n "$more" ] || break
        FXSIM_EXCLUDE="$(echo $FXSIM_EXCLUDE $more)"
        # Too little left to decide anything with.
        [ "$(wc -w <<<"$FXSIM_EXCLUDE")" -le 60 ] || break
    done
    tail -60 "$log"
    echo "BUILD FAILED"
    return 2
}

case "${1:-}" in
build) build || exit 2 ;;
replay) build || exit 2; exec "$CARGO_TARGET_DIR/release/fxsim" replay "$2" ;;
"") echo "usage: check.sh build | ID [quick|thorough] | replay FILE"; exit 2 ;;
*)
    build || exit 2
    export FXSIM_ROOT="$ROOT"
    exec "$CARGO_TARGET_DIR/release/fxsim" check "$1" "${2:-quick}"
    ;;
esac
