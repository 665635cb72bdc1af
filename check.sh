#!/bin/bash
# build everything the checks need from /repo's current working tree, then run one of:
#   check.sh build | check.sh C07 quick | check.sh C07 thorough | check.sh replay FILE
set -u
V=$(cd "$(dirname "$0")" && pwd)
B=${SIM_BUILD:-$V/.build}
REPO=${SIM_REPO:-/repo}
export SIM_BUILD=$B SIM_CORPUS=$V/sim/corpus/good SIM_EVIDENCE=${SIM_EVIDENCE:-$V/evidence}
export SIM_REPLAYS=${SIM_REPLAYS:-$SIM_EVIDENCE/replay}
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET RUSTC_WRAPPER
mkdir -p "$B/bin" "$V/evidence"
again() { "$@" || { sleep 5; "$@"; }; } # a compiler may be ended when memory is short
fail() { echo "BUILD ERROR: $1" >&2; exit 2; }

build() {
  # one build at a time
  exec 9>"$B/lock"; flock 9
  local shim_hash repo_hash sim_hash
  shim_hash=$(cat "$V"/sim/shim/* "$V/check.sh" | sha256sum)
  if [ ! -f "$B/shim.so" ] || [ "$(cat "$B/shim.hash" 2>/dev/null)" != "$shim_hash" ]; then
    gcc -O2 -shared -fPIC -fno-builtin -fno-delete-null-pointer-checks -w -o "$B/shim.so.new" "$V/sim/shim/shim.c" -ldl -lpthread || fail shim
    mv "$B/shim.so.new" "$B/shim.so"; echo "$shim_hash" >"$B/shim.hash"
  fi
  sim_hash=$(cat "$V"/sim/simd/src/* "$V"/sim/simd/Cargo.* | sha256sum)
  if [ ! -x "$B/bin/simd" ] || [ "$(cat "$B/simd.hash" 2>/dev/null)" != "$sim_hash" ]; then
    rm -rf "$B/simd/src"; mkdir -p "$B/simd/src"
    cp -r "$V/sim/simd/src" "$V/sim/simd/Cargo.toml" "$V/sim/simd/Cargo.lock" "$B/simd/src/" || fail copy
    find "$B/simd/src" -type f -exec touch {} +
    (cd "$B/simd/src" && again cargo build --release --offline --target-dir "$B/simd/target") >"$B/simd.log" 2>&1 || { cat "$B/simd.log" >&2; fail simulator; }
    cp "$B/simd/target/release/simd" "$B/bin/simd.new" && mv "$B/bin/simd.new" "$B/bin/simd"; echo "$sim_hash" >"$B/simd.hash"
  fi
  # the program under test: by content, because time stamps of a checked-out tree say nothing
  repo_hash=$( (cd "$REPO" && find . -path ./target -prune -o -path ./.git -prune -o -path ./tests -prune -o -type f \( -name '*.rs' -o -name '*.toml' -o -name '*.lock' -o -path './src/*' -o -path './.cargo/*' -o -path './scripts/*' \) -print0 | sort -z | xargs -0 sha256sum; cat "$V"/sim/driver/src/*.rs "$V"/sim/driver/Cargo.toml; sha256sum <"$V/check.sh"; rustc -V) | sha256sum)
  if [ ! -x "$B/bin/afmt" ] || [ ! -x "$B/bin/driver" ] || [ "$(cat "$B/repo.hash" 2>/dev/null)" != "$repo_hash" ]; then
    rm -f "$B/repo.hash"
    local fl="-Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc-guard -Ccodegen-units=1 -Clink-arg=-Wl,--unresolved-symbols=ignore-all"
    local t="$B/target"
    rm -rf "$B/src"; mkdir -p "$B/src/driver"
    cp -r "$V/sim/driver/src" "$B/src/driver/"
    sed "s#/repo\"#$REPO\"#" "$V/sim/driver/Cargo.toml" >"$B/src/driver/Cargo.toml"
    cp "$REPO/Cargo.lock" "$B/src/driver/Cargo.lock"
    find "$B/src" -type f -exec touch {} +
    # forget what was built from /repo before (the dependencies stay)
    find "$t" -depth \( -name 'sf-afmt-*' -o -name 'sf_afmt-*' -o -name 'libsf_afmt-*' -o -name 'afmt-*' -o -name 'driver-*' \) -exec rm -rf {} + 2>/dev/null
    (cd "$REPO" && RUSTFLAGS="$fl" again cargo build --release --offline --locked --target x86_64-unknown-linux-gnu --target-dir "$t" --bin afmt) >"$B/afmt.log" 2>&1 || { cat "$B/afmt.log" >&2; fail "afmt does not build"; }
    (cd "$B/src/driver" && RUSTFLAGS="$fl" again cargo build --release --offline --target x86_64-unknown-linux-gnu --target-dir "$t") >"$B/driver.log" 2>&1 || { cat "$B/driver.log" >&2; fail "the library driver does not build"; }
    for b in afmt driver; do cp "$t/x86_64-unknown-linux-gnu/release/$b" "$B/bin/$b.new" && mv "$B/bin/$b.new" "$B/bin/$b" || fail "$b"; done
    echo "$repo_hash" >"$B/repo.hash"
  fi
  exec 9>&-
}

case "${1:-}" in
  build) build ;;
  selftest|run|diff|audit|record|apex) build; exec "$B/bin/simd" "$@" ;;   # for development
  replay) if grep -q '"simulator": "install"' "$2"; then exec python3 "$V/sim/install/install_sim.py" "$V" "$REPO" replay "$2"; fi
    build; exec "$B/bin/simd" replay "$2" ;;
  C13|C14) exec python3 "$V/sim/install/install_sim.py" "$V" "$REPO" "$1" "${2:-${VERIF_TIER:-quick}}" ;;
  C*) build; exec "$B/bin/simd" check "$1" "${2:-${VERIF_TIER:-quick}}" "${@:3}" ;;
  *) echo "usage: check.sh build | ID quick|thorough | replay FILE" >&2; exit 2 ;;
esac
