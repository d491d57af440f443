#!/bin/bash
# usage: check.sh ID [quick|thorough]      decide one property of /repo's working tree
#        check.sh --replay FILE            judge the single case of a replay file again
#        check.sh --build                  only build everything (setup_cmd)
# exit status: 0 the property held on everything explored, 1 VIOLATION, 2 no verdict (build or infrastructure error)
export HOME=${HOME:-/root} PATH=/root/.cargo/bin:$PATH LC_ALL=C
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= RUST_BACKTRACE=0
export CARGO_INCREMENTAL=0 CARGO_PROFILE_DEV_DEBUG=0 CARGO_PROFILE_DEV_OPT_LEVEL=1
export CARGO_PROFILE_DEV_OVERFLOW_CHECKS=true CARGO_PROFILE_DEV_DEBUG_ASSERTIONS=true
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET RUST_LOG
V=$(cd "$(dirname "$0")" && pwd)
R=${MC_REPO:-/repo}
T=$V/target
mkdir -p "$T" "$V/evidence" || exit 2

# programs each property executes (kept in step with `mc progs`, which is checked below)
progs_of() { sed -n "s/^$1: *//p" "$V/progs.txt"; }

build() { # build ID...: the programs of the given properties and the explorer
    exec 9>"$T/.lock"
    flock 9
    # cargo trusts modification times; a changed source with an old time must be rebuilt all the same
    local stamp old
    stamp=$(cd "$R" && find Cargo.toml src -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum)
    old=$(cat "$T/stamp" 2>/dev/null)
    if [ "$stamp" != "$old" ]; then
        find "$R/src" "$R/Cargo.toml" -maxdepth 0 >/dev/null || return 1
        for d in repo/debug repo/release mc/debug rs/debug; do
            [ -d "$T/$d/.fingerprint" ] && find "$T/$d/.fingerprint" -maxdepth 1 \( -name 'stringology-*' -o -name 'randomstring-mc-*' -o -name 'release-probe-*' \) -exec rm -rf {} +
        done
        rm -f "$T/stamp"
    fi
    local bins="" rs=0 rel=0 p id
    for id in "$@"; do
        for p in $(progs_of "$id"); do
            if [ "$p" = randomstring-mc ]; then rs=1; continue; fi
            if [ "$p" = release-probe ]; then rel=1; continue; fi
            case " $bins " in *" $p "*) ;; *) bins="$bins $p" ;; esac
        done
    done
    local args="" ok=0 p1="" p2="" p3="" p4=""
    for p in $bins; do args="$args --bin $p"; done
    ( gcc -O2 -Wall -fPIC -shared -U_FORTIFY_SOURCE -o "$T/shim.so.$$" "$V/shim/shim.c" -ldl && mv -f "$T/shim.so.$$" "$T/shim.so" ) >"$T/shim.log" 2>&1 & p1=$!
    ( CARGO_PROFILE_DEV_OPT_LEVEL=2 cargo build --offline --manifest-path "$V/mc/Cargo.toml" --target-dir "$T/mc" ) >"$T/mc.log" 2>&1 & p2=$!
    if [ -n "$args" ]; then
        ( cargo build --offline --manifest-path "$R/Cargo.toml" --target-dir "$T/repo" $args ) >"$T/repo.log" 2>&1 & p3=$!
    fi
    if [ $rel = 1 ]; then
        # the same programs and library as a user's release build has them
        ( cargo build --release --offline --manifest-path "$R/Cargo.toml" --target-dir "$T/repo" --bins && cargo build --release --offline --manifest-path "$V/probe/Cargo.toml" --target-dir "$T/repo" ) >"$T/release.log" 2>&1 & p4=$!
    fi
    wait $p1 || { ok=1; cat "$T/shim.log"; }
    wait $p2 || { ok=1; cat "$T/mc.log"; }
    if [ -n "$p3" ]; then wait $p3 || { ok=1; cat "$T/repo.log"; }; fi
    if [ -n "$p4" ]; then wait $p4 || { ok=1; cat "$T/release.log"; }; fi
    if [ $ok = 0 ] && [ $rs = 1 ] && [ -d "$V/randomstring-mc" ]; then
        ( cargo build --offline --manifest-path "$V/randomstring-mc/Cargo.toml" --target-dir "$T/rs" && cp -f "$T/rs/debug/randomstring-mc" "$T/repo/debug/randomstring-mc" ) >"$T/rs.log" 2>&1 || { ok=1; cat "$T/rs.log"; }
    fi
    [ $ok = 0 ] && echo "$stamp" >"$T/stamp"
    exec 9>&-
    return $ok
}

COMMON=(--bins "$T/repo/debug" --shim "$T/shim.so" --evidence "$V/evidence" --known "$V/known_findings.txt" --replays "$V/replays")
case "$1" in
--build)
    build $(cut -d: -f1 "$V/progs.txt") || exit 2
    exit 0
    ;;
--replay)
    f=$(realpath "$2") || exit 2
    id=$(sed -n 's/^property=//p' "$f")
    build "$id" || exit 2
    "$T/mc/debug/mc" replay "$f" "${COMMON[@]}"
    exit $?
    ;;
C[0-9][0-9])
    id=$1
    tier=${2:-quick}
    build "$id" || { echo "ERROR: build failed"; exit 2; }
    "$T/mc/debug/mc" run "$id" --tier "$tier" "${COMMON[@]}"
    exit $?
    ;;
*)
    sed -n '2,5p' "$0"
    exit 2
    ;;
esac
