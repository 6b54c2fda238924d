#!/bin/bash
# check.sh <property> [replay <file>]
# Builds the harness against /repo's working tree and runs the checks of one property.
# Exit 0: held on everything explored; 1: violation (a VIOLATION line is printed); other: error of the check.
set -u
export HOME="${HOME:-/root}" PATH="/usr/local/bin:/root/.cargo/bin:$PATH"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0
unset RUSTC_WRAPPER CARGO_BUILD_TARGET CARGO_TARGET_DIR RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
ROOT="$(cd "$(dirname "$0")" && pwd)"
export VERIF_ROOT="$ROOT" REPO_ROOT="${REPO_ROOT:-/repo}"
PROP="${1:?property}"
H="$ROOT/harness"
LOCKED=--locked
# dependencies of the library changed (Cargo.toml edited): resolve again among what is installed, in a copy of the lock file
if ! (cd "$H" && cargo metadata --offline --locked --format-version 1) >/dev/null 2>&1; then
    LOCKED=
    cp "$H/Cargo.lock" "$H/target.lock.$$" && trap 'mv -f "$H/target.lock.$$" "$H/Cargo.lock"' EXIT
fi
mkdir -p "$H/target"

source_hash() {
    (cd "$REPO_ROOT" && find . -path ./target -prune -o -path ./.git -prune -o -type f \( -name '*.rs' -o -name 'Cargo.toml' \) -print0 |
        LC_ALL=C sort -z | xargs -0 sha256sum; cd "$H" && sha256sum Cargo.toml Cargo.lock covwrap.sh) 2>/dev/null | sha256sum | cut -d' ' -f1
}

# build <target-dir> <rustflags> <features>; fails if it does not compile
build() {
    local dir="$H/target/$1" flags="$2" feats="$3" log="$H/target/$1.log" want
    want="$(source_hash)"
    # the fingerprint must not depend on modification times: drop the crate when its content changed
    if [ -d "$dir" ] && [ "$(cat "$dir/.source" 2>/dev/null)" != "$want" ]; then
        (cd "$H" && cargo clean --offline --release --target-dir "$dir" -p libgoldilocks) >/dev/null 2>&1 || rm -rf "$dir"
    fi
    mkdir -p "$dir"
    echo "$want" >"$dir/.source"
    if ! (cd "$H" && RUSTFLAGS="$flags" cargo build --release --offline $LOCKED --features "$feats" --target-dir "$dir") >"$log" 2>&1; then
        rm -f "$dir/.source"
        return 1
    fi
    cp -f "$dir/release/edcheck" "$dir/edcheck-checked"
    # the same with the library as a release build has it: no overflow checks, no debug assertions
    if ! (cd "$H" && RUSTFLAGS="$flags" cargo build --release --offline $LOCKED --features "$feats" --target-dir "$dir" \
        --config profile.release.package.libgoldilocks.overflow-checks=false \
        --config profile.release.package.libgoldilocks.debug-assertions=false) >>"$log" 2>&1; then
        rm -f "$dir/.source"
        return 1
    fi
    cp -f "$dir/release/edcheck" "$dir/edcheck-plain"
}

# the library instrumented, for the coverage-guided pass; a tree on which this fails goes without that pass
build_guided() {
    local dir="$H/target/$1-guided" flags="$2" feats="$3" log="$H/target/$1-guided.log" want
    want="$(source_hash)"
    if [ -d "$dir" ] && [ "$(cat "$dir/.source" 2>/dev/null)" != "$want" ]; then
        (cd "$H" && cargo clean --offline --release --target-dir "$dir" -p libgoldilocks) >/dev/null 2>&1 || rm -rf "$dir"
    fi
    mkdir -p "$dir"
    echo "$want" >"$dir/.source"
    if ! (cd "$H" && RUSTC_WRAPPER="$H/covwrap.sh" RUSTFLAGS="$flags" cargo build --release --offline $LOCKED --features "$feats" \
        --target-dir "$dir" --config profile.release.package.libgoldilocks.overflow-checks=false \
        --config profile.release.package.libgoldilocks.debug-assertions=false) >"$log" 2>&1; then
        rm -f "$dir/.source"
        return 1
    fi
}

exec 9>"$H/target/.lock"
flock 9
BIN=
case "$PROP" in
C15) one=h_field ;;
C16) one=h_scalar ;;
C17 | C18) one=h_point ;;
*) one= ;;
esac
if [ -n "$one" ]; then
    # all hooks; else only the one this property needs; else (internals renamed or reshaped) the public interface
    for f in h_field,h_scalar,h_point "$one"; do
        if build hooked "--cfg verif_hooks" "$f"; then
            BIN="$H/target/hooked/edcheck" GUIDED=(hooked "--cfg verif_hooks" "guided,$f")
            break
        fi
    done
    [ -n "$BIN" ] || echo "note: the internals cannot be hooked on this tree; checking $PROP through the public interface"
fi
if [ -z "$BIN" ]; then
    if build api "" ""; then
        BIN="$H/target/api/edcheck" GUIDED=(api "" guided)
    else
        tail -40 "$H/target/api.log" >&2
        echo "error: the harness does not build against $REPO_ROOT" >&2
        exit 3
    fi
fi
if [ "$PROP" = build ]; then
    build hooked "--cfg verif_hooks" h_field,h_scalar,h_point || { tail -40 "$H/target/hooked.log" >&2; exit 3; }
    build_guided api "" guided
    build_guided hooked "--cfg verif_hooks" guided,h_field,h_scalar,h_point
    exit 0
fi
flock -u 9
exec 9>&-
"$BIN-checked" "$@" || exit $?
EDCHECK_PASS=plain "$BIN-plain" "$@" || exit $?
[ "${2:-}" = replay ] || [ "$PROP" = C14 ] && exit 0 # C14 runs the library in other processes
exec 9>"$H/target/.lock"
flock 9
if build_guided "${GUIDED[@]}"; then
    flock -u 9
    exec 9>&-
    "$H/target/${GUIDED[0]}-guided/release/edcheck" "$@"
    case $? in
    0) ;;
    1) exit 1 ;;
    *) echo "note: the coverage-guided pass did not finish" ;;
    esac
else
    echo "note: the library cannot be instrumented on this tree; no coverage-guided pass"
fi

exit 0
