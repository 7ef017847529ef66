#!/bin/bash
# RUSTC_WRAPPER: compiles the crate under test with ThreadSanitizer's
# instrumentation (no sanitizer runtime: src/tsan.rs provides the callbacks),
# so that every memory access and atomic operation of it is a scheduling point.
rustc="$1"; shift
prev=; name=
for a in "$@"; do [ "$prev" = --crate-name ] && name="$a"; prev="$a"; done
[ -n "$SIM_PLAIN" ] && name=
case "$name" in
    cosmian_abe_gpsw) exec "$rustc" "$@" -Zsanitizer=thread -Zexternal-clangrt -Cunsafe-allow-abi-mismatch=sanitizer ;;
    sim) exec "$rustc" "$@" -Cunsafe-allow-abi-mismatch=sanitizer ;;
esac
exec "$rustc" "$@"
