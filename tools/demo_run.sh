#!/bin/bash
# usage: run.sh <dir of the demo> : copies the library sources, leaves out what cannot compile, adds demo.rs as an integration test
set -e
here=$(cd "$1" && pwd)
W=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$W"' EXIT
mkdir "$W/t"
cp -r src Cargo.toml Cargo.lock README.md "$W/t/" 2>/dev/null || true
cd "$W/t"
for m in efjc efrc; do
  d=src/physics/single_chain/$m/thermodynamics/isometric
  if grep -rqs rand_distr "$d/monte_carlo"; then sed -i 's/^pub mod monte_carlo;/#[cfg(any())] &/' "$d/mod.rs"; fi
done
export RUSTFLAGS=-Awarnings CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$W/target" PATH=/root/.cargo/bin:/usr/local/cargo/bin:$PATH CARGO_PROFILE_DEV_DEBUG=0
if [ -n "$DEMO_PYTHON" ]; then
  cargo build --offline --features python >"$W/log" 2>&1 || { tail -20 "$W/log"; exit 3; }
  mkdir "$W/py"; cp "$W/target/debug/libpolymers.so" "$W/py/polymers.so"
  cd "$W/py"; PYTHONPATH="$W/py" timeout 120 python3-vt "$here/demo.py"
else
  mkdir tests; cp "$here/demo.rs" tests/demo.rs
  timeout 280 cargo test --offline $DEMO_FEATURES --test demo 2>&1 | tail -40; exit ${PIPESTATUS[0]}
fi
