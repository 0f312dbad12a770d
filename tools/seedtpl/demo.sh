#!/bin/bash
# Compiles the crate in the current directory (/repo) together with root.rs beside this file
# (through the crate's cfg(vp_hooks) include point) and runs demo(): 0 = the behaviour is as required.
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
W=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$W"' EXIT
mkdir -p "$W/h" "$W/t/debug"
cp "$D"/*.rs "$W/h/"
for f in aby3 aby3_mal swift3 spdzwise iris; do [ -f "$W/h/${f}_protocol.rs" ] || echo "// none" > "$W/h/${f}_protocol.rs"; done
for d in deps build .fingerprint; do [ -d "$R/target/debug/$d" ] && cp -a --reflink=auto "$R/target/debug/$d" "$W/t/debug/"; done
export HOME=/root PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_PROFILE_DEV_OPT_LEVEL=1 CARGO_TARGET_DIR="$W/t" RUSTC_WRAPPER= VP_HOOKS_DIR="$W/h"
unset RUSTFLAGS CARGO_BUILD_TARGET CARGO_ENCODED_RUSTFLAGS
rm -f "$W"/t/debug/libiris_mpc.so
cargo rustc -p iris-mpc --lib --locked --offline --crate-type cdylib -- --cfg vp_hooks -Cmetadata=demo -Awarnings > "$W/log" 2>&1 || { tail -30 "$W/log"; exit 3; }
timeout 200 python3 -c "import ctypes,sys; sys.exit(ctypes.CDLL('$W/t/debug/libiris_mpc.so').demo_main())"
rc=$?
echo "demo exit $rc"
exit $rc
