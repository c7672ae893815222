#!/bin/bash
# Builds the harness and the real command line tool from /repo's working tree.
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=/verif/target
cd /verif/mc || exit 3
log=$(mktemp /tmp/mcbuild.XXXXXX)
if ! cargo build --release --offline --quiet >"$log" 2>&1; then
  cat "$log" >&2; rm -f "$log"; exit 3
fi
rm -f "$log"
so=/verif/target/mcenv.so
if [ ! -f $so ] || [ /verif/shims/env.c -nt $so ]; then
  gcc -O1 -shared -fPIC -o $so.$$ /verif/shims/env.c -ldl && mv $so.$$ $so || exit 3
fi
