#!/bin/bash
# Builds /repo's programs the way /opt/vp/build.sh does (same settings, same git-ignored target folder),
# and the harness.  With JAR_BUILD, also a launcher with an uberjar set at build time, copied there.  Sourced by check.sh; also the setup command.
export HOME=/root PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
unset LIMABEAN_UBERJAR LIMABEAN_CLJ_LOCAL_ROOT LIMABEAN_CLJ_DEPS CARGO_TARGET_DIR RUSTFLAGS CARGO_BUILD_TARGET
POD_DIR=/repo/rust/target/debug
_here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
_build() {
    local log rc
    log=$(mktemp) || return 1
    touch /repo/rust/src/lib.rs # so that cargo looks at contents rather than at times of files
    { [ -z "${JAR_BUILD:-}" ] ||
      ( cd /repo/rust && LIMABEAN_UBERJAR=lb-built-in.jar CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only \
        cargo build --bin limabean --locked --offline && cp target/debug/limabean "$JAR_BUILD" ) >"$log" 2>&1; } &&
    ( cd /repo/rust && CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only \
        cargo build --workspace --locked --offline ) >>"$log" 2>&1 &&
    ( cd "$_here/harness" && cargo build --locked --offline ) >>"$log" 2>&1
    rc=$?
    [ $rc = 0 ] || { tail -n 40 "$log" >&2; echo "build failed" >&2; }
    rm -f "$log"
    return $rc
}
_build
