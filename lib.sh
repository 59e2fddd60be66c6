# Shared by check.sh and setup.sh; sourced with cwd = /verif.
export VH_ROOT=$PWD
export VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=${VERIF_TIER:-quick}
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
unset RUSTFLAGS RUSTDOCFLAGS CARGO_TARGET_DIR RUSTC_WRAPPER CARGO_BUILD_TARGET
VH_TARGET=$VH_ROOT/target

# Cargo decides by mtime; decide by content as well, so that a tree whose files
# carry old timestamps is never mistaken for the one built before.
vh_fresh() { # vh_fresh TARGETDIR
  local t=$1 sum
  mkdir -p "$t"
  sum=$( { find /repo/src -type f -print0 | sort -z | xargs -0 sha256sum; sha256sum /repo/Cargo.toml; } | sha256sum )
  if [ "$(cat "$t/.vh-sum" 2>/dev/null)" != "$sum" ]; then
    find "$t" -maxdepth 6 -type d -path '*/.fingerprint/image-[0-9a-f]*' ! -name 'image-webp*' -print0 2>/dev/null |
      xargs -0 -r rm -rf
    # the layout of the nightly cargo
    find "$t" -maxdepth 7 -type d -path '*/build/image/*/fingerprint' -print0 2>/dev/null | xargs -0 -r rm -rf
    echo "$sum" > "$t/.vh-sum"
  fi
}

vh_build() { # vh_build ID
  local bin; bin=$(echo "$1" | tr A-Z a-z)
  vh_fresh "$VH_TARGET"
  cargo build --manifest-path harness/Cargo.toml --release --offline --locked \
    --target-dir "$VH_TARGET" --bin "$bin" > "$VH_TARGET/build-$bin.log" 2>&1 ||
    { tail -n 30 "$VH_TARGET/build-$bin.log"; return 1; }
}

# The memory and race detectors: `image`, the harness and everything in Rust
# below them instrumented, with the nightly compiler that is installed.
VH_NIGHTLY=nightly-x86_64-unknown-linux-gnu
VH_TRIPLE=x86_64-unknown-linux-gnu
vh_build_san() { # vh_build_san asan|msan|tsan BIN [FEATURES]
  local kind=$1 bin=$2 t=$VH_TARGET/$1 flags std=
  case $kind in
    asan) flags="-Zsanitizer=address -Zub-checks=yes -Cforce-frame-pointers=yes" ;;
    msan) flags="-Zsanitizer=memory -Zub-checks=yes"; std=-Zbuild-std ;;
    tsan) flags="-Zsanitizer=thread"; std=-Zbuild-std ;;
  esac
  vh_fresh "$t"
  RUSTUP_TOOLCHAIN=$VH_NIGHTLY RUSTFLAGS=$flags \
    cargo build $std --manifest-path harness/Cargo.toml --profile san --offline --locked \
    --target $VH_TRIPLE --target-dir "$t" --bin "$bin" ${3:+--features "$3"} > "$t/build-$bin.log" 2>&1 ||
    { tail -n 30 "$t/build-$bin.log"; return 1; }
}
vh_san_bin() { # vh_san_bin KIND BIN
  echo "$VH_TARGET/$1/$VH_TRIPLE/san/$2"
}
vh_miri_env() {
  export XDG_CACHE_HOME=$VH_TARGET/miri/cache RUSTUP_TOOLCHAIN=$VH_NIGHTLY
  export MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-permissive-provenance"
  mkdir -p "$XDG_CACHE_HOME"
}
vh_miri_build() { # in a subshell
  vh_miri_env
  vh_fresh "$VH_TARGET/miri"
  { cargo miri setup --offline &&
    VH_ONLY=nothing VH_INLINE=1 cargo miri run --manifest-path harness/Cargo.toml --offline --locked \
      --target-dir "$VH_TARGET/miri" --bin d01; } > "$VH_TARGET/miri/build.log" 2>&1 ||
    { tail -n 30 "$VH_TARGET/miri/build.log"; return 1; }
}

vh_run() { # vh_run ID
  # how much more than the plain counts the quick run of a cheap check does
  [ "$VERIF_TIER" = quick ] && [ -z "$VH_SCALE" ] && case $1 in
    A01|A06|A07|B01|B02|B06|C01) export VH_SCALE=12 ;;
    A03|A04|B04|C05) export VH_SCALE=6 ;;
    B03|B05|C14) export VH_SCALE=4 ;;
    A05|C02|C11|C12|C13) export VH_SCALE=2 ;;
  esac
  "$VH_TARGET/release/$(echo "$1" | tr A-Z a-z)"
}
