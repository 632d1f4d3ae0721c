# sourced: builds /verif/target/release/mc from /repo's working tree; returns nonzero on failure
here=${here:?}
export PATH="/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin:$PATH" HOME=/root
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset CARGO_INCREMENTAL RUSTFLAGS RUSTC_WRAPPER CARGO_BUILD_RUSTC_WRAPPER CARGO_ENCODED_RUSTFLAGS
export CARGO_TARGET_DIR="$here/target"
mkdir -p "$here/target" "$here/out" "$here/evidence" || return 2
exec 9> "$here/target/build.lock" && flock 9
# cargo decides by time stamps whether a path dependency changed; decide by content instead
sum=$(cd /repo && { find Cargo.toml src -type f -print0 | sort -z | xargs -0 sha256sum; find "$here/harness" \( -name '*.rs' -o -name Cargo.toml \) -print0 | sort -z | xargs -0 sha256sum; } | sha256sum | cut -c1-64)
if [ ! -x "$here/target/release/mc" ] || [ "$(cat "$here/target/sum" 2>/dev/null)" != "$sum" ]; then
  rm -f "$here/target/sum"
  (
    cd "$here/harness" || exit 2
    cargo clean --release -p seshat-unicode -p mc >/dev/null 2>&1
    cargo build --release --offline --locked > "$here/target/build.log" 2>&1
  ) || { echo "ERROR the explorer does not build against /repo:"; grep -A8 '^error' "$here/target/build.log" | head -60; return 2; }
  echo "$sum" > "$here/target/sum"
fi
# the schedule explorer of P02: library and standard library instrumented, run-time of its own
if [ "${want:-}" = P02 ]; then
  csum=$(cat "$here/conc/rt.c" "$here/conc/src/main.rs" "$here/conc/Cargo.toml" "$here/target/sum" | sha256sum | cut -c1-64)
  if [ ! -x "$here/target/conc/x86_64-unknown-linux-gnu/release/conc" ] || [ "$(cat "$here/target/conc.sum" 2>/dev/null)" != "$csum" ]; then
    rm -f "$here/target/conc.sum"
    mkdir -p "$here/target/conc"
    (
      cd "$here/conc" || exit 2
      export CARGO_TARGET_DIR="$here/target/conc" RUSTUP_TOOLCHAIN=nightly-x86_64-unknown-linux-gnu
      export RUSTFLAGS="-Zsanitizer=thread -Zexternal-clangrt -Clink-arg=$here/target/conc/rt.o"
      gcc -O2 -c rt.c -o "$here/target/conc/rt.o" || exit 2
      cargo clean --release --target x86_64-unknown-linux-gnu -p seshat-unicode -p conc >/dev/null 2>&1
      cargo build --release --offline --locked -Zbuild-std=std,panic_unwind --target x86_64-unknown-linux-gnu
    ) > "$here/target/conc.log" 2>&1 || { echo "ERROR the schedule explorer does not build against /repo:"; grep -A8 '^error' "$here/target/conc.log" | head -60; return 2; }
    echo "$csum" > "$here/target/conc.sum"
  fi
fi
exec 9>&-
return 0
