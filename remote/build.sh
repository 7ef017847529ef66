#!/bin/bash
# Builds the Python and WebAssembly interfaces from /repo's working tree.
# build.sh TARGET_DIR OUT_DIR: OUT_DIR/py and OUT_DIR/js exist if that worked.
cd "$(dirname "$0")" || exit 1
export PATH=/opt/vp/tools/bin:/root/.cargo/bin:/usr/local/cargo/bin:$PATH
export RUSTUP_TOOLCHAIN=1.99.1 RUSTC_BOOTSTRAP=1 RUSTC_WRAPPER="$PWD/../harness/wrap.sh" SIM_PLAIN=1
export CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 CARGO_TARGET_DIR="$1"
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
o="$2"
mkdir -p "$1" "$o"
rm -rf "$o/py" "$o/js" "$o/py.new" "$o/js.new"
cargo build --release --offline --features python &&
    mkdir -p "$o/py.new" &&
    cp "$1/release/libcosmian_abe_gpsw_remote.so" "$o/py.new/cosmian_abe_gpsw.so" &&
    gcc -O1 -shared -fPIC -o "$o/py.new/ent.so" ent.c &&
    cp server.py "$o/py.new/" &&
    echo '{"f":"get_encrypted_header_size","a":[{"b":"00000001"}],"e":"1"}' |
    LD_PRELOAD="$o/py.new/ent.so" timeout 60 python3 -S -E -s "$o/py.new/server.py" "$o/py.new" | grep '^{' && mv "$o/py.new" "$o/py"
cargo build --release --offline --features wasm_bindgen --target wasm32-unknown-unknown &&
    wasm-bindgen --target nodejs --out-name abe --out-dir "$o/js.new" \
        "$1/wasm32-unknown-unknown/release/cosmian_abe_gpsw_remote.wasm" &&
    cp server.js "$o/js.new/" &&
    echo '{"f":"webassembly_get_encrypted_header_size","a":[{"b":"00000001"}],"e":"1"}' |
    timeout 60 node --single-threaded "$o/js.new/server.js" "$o/js.new/abe.js" | grep '^{' && mv "$o/js.new" "$o/js"
[ -d "$o/py" ] && [ -d "$o/js" ]
