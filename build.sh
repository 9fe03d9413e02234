#!/bin/bash
# Builds, from the present content of /repo and /verif: the tool (unmodified release binary), the
# preload seam and the simulator. Everything goes to /verif/.build. One builder at a time.
V=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_INCREMENTAL=0
export CARGO_PROFILE_RELEASE_DEBUG=false CARGO_PROFILE_RELEASE_OPT_LEVEL=3
mkdir -p "$V/.build"
exec 9>"$V/.build/lock"
flock 9
# Cargo goes by time stamps; go by content.
stamp() { (cd "$1" && find . \( -name target -o -name .git \) -prune -o -type f -print0 | LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum); }
now=$(stamp /repo)
if [ "$now" != "$(cat "$V/.build/repo.sha" 2>/dev/null)" ] || [ ! -x "$V/.build/target/release/mutagenyx" ]; then
    rm -f "$V/.build/repo.sha"
    (cd /repo && CARGO_TARGET_DIR="$V/.build/target" cargo clean --release --offline -p mutagenyx -p mutagenyx_lib) >/dev/null 2>&1
    (cd /repo && CARGO_TARGET_DIR="$V/.build/target" cargo build --release --offline) >"$V/.build/repo.log" 2>&1 || { tail -40 "$V/.build/repo.log" >&2; exit 3; }
    echo "$now" >"$V/.build/repo.sha"
fi
now=$(stamp "$V/sim")
if [ "$now" != "$(cat "$V/.build/sim.sha" 2>/dev/null)" ] || [ ! -x "$V/.build/sim/release/sim" ]; then
    rm -f "$V/.build/sim.sha"
    gcc -O2 -fPIC -shared -w -fno-builtin -o "$V/.build/libsim.so" "$V/sim/preload.c" -ldl || exit 3
    find "$V/sim/src" -name main.rs -exec touch {} +
    (cd "$V/sim" && unset CARGO_PROFILE_RELEASE_OPT_LEVEL && CARGO_TARGET_DIR="$V/.build/sim" cargo build --release --offline) >"$V/.build/sim.log" 2>&1 || { tail -40 "$V/.build/sim.log" >&2; exit 3; }
    echo "$now" >"$V/.build/sim.sha"
fi
