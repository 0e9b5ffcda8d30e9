#!/bin/bash
# Builds the monitor harness (and, with "san", the sanitizer builds and the Miri driver) from /repo's current tree.
# Skips a build whose inputs did not change since it last succeeded.
set -u
home=$(cd "$(dirname "$0")" && pwd)
export CARGO_NET_OFFLINE=true
mkdir -p "$home/target"
exec 9>"$home/target/.lock"
flock 9
sum() { # hash of the given files and folders
    find "$@" -type f -not -path '*/target/*' -print0 | sort -z | xargs -0 sha256sum | sha256sum | cut -c1-64
}
repo=$(find /repo -maxdepth 1 -name 'Cargo.*'; echo /repo/src; [ -e /repo/build.rs ] && echo /repo/build.rs)
one() { # name, crate, command...
    local name=$1 crate=$2 now
    shift 2
    now=$(sum $repo "$home/$crate")
    local stamp="$home/target/stamp-$name"
    if [ -f "$stamp" ] && [ "$(cat "$stamp")" = "$now" ]; then return 0; fi
    rm -f "$stamp"
    # cargo decides by modification times; make it look again
    find "$home/target" -maxdepth 6 -type d -path '*/.fingerprint/cloud-storage-signature-*' -prune -exec rm -rf {} + 2>/dev/null
    if ! "$@" >"$home/target/log-$name" 2>&1; then
        grep -E '^error' -A12 "$home/target/log-$name" | head -60
        tail -5 "$home/target/log-$name"
        echo "ERROR build of $name failed"
        return 1
    fi
    echo "$now" >"$stamp"
}
rc=0
one release harness env CARGO_TARGET_DIR="$home/target" cargo build --release --offline --manifest-path "$home/harness/Cargo.toml" || rc=1
if [ "${1-}" = san ] && [ $rc = 0 ]; then
    san() { env CARGO_TARGET_DIR="$home/target/$1" RUSTFLAGS="-Zsanitizer=$2" cargo +nightly build -Zbuild-std --target x86_64-unknown-linux-gnu --offline --features real_clock --manifest-path "$home/harness/Cargo.toml"; }
    miri() { env CARGO_TARGET_DIR="$home/target/miri" MIRIFLAGS=-Zmiri-disable-isolation cargo +nightly miri run --offline -q --manifest-path "$home/miri/Cargo.toml" -- 1 0; }
    one asan harness san asan address || rc=1
    one tsan harness san tsan thread || rc=1
    one miri miri miri || rc=1
fi
exit $rc
