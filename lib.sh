HOOKS="--cfg orv_hooks"
HOST=x86_64-unknown-linux-gnu
# Checks with a stage under the address sanitizer
ASAN=" S01 C01 "
build_plain() {
  RUSTFLAGS="$HOOKS" cargo build -q --offline --manifest-path harness/Cargo.toml --target-dir "$CARGO_TARGET_DIR/plain" 2>"$CARGO_TARGET_DIR/build.log" || { tail -40 "$CARGO_TARGET_DIR/build.log"; return 1; }
}
build_asan() {
  ORV_CFLAGS="-fsanitize=address -fno-omit-frame-pointer" RUSTFLAGS="$HOOKS -Zsanitizer=address -Cforce-frame-pointers=yes" cargo +nightly build -q --offline --target $HOST --manifest-path harness/Cargo.toml --target-dir "$CARGO_TARGET_DIR/asan" 2>"$CARGO_TARGET_DIR/build-asan.log" || { tail -40 "$CARGO_TARGET_DIR/build-asan.log"; return 1; }
}
# Checks with a stage under the thread sanitizer
TSAN=" S05 "
build_tsan() {
  ORV_CFLAGS="-fsanitize=thread" RUSTFLAGS="$HOOKS -Zsanitizer=thread" cargo +nightly build -q --offline -Zbuild-std --target $HOST --manifest-path harness/Cargo.toml --target-dir "$CARGO_TARGET_DIR/tsan" 2>"$CARGO_TARGET_DIR/build-tsan.log" || { tail -40 "$CARGO_TARGET_DIR/build-tsan.log"; return 1; }
}
# Checks that run the command line tools
TOOLS=" T01 "
export ORV_BINS=$CARGO_TARGET_DIR/tools/debug
build_tools() {
  CARGO_INCREMENTAL=0 cargo build -q --offline --manifest-path "${ORV_REPO:-/repo}/Cargo.toml" --config 'profile.dev.opt-level=1' --config 'profile.dev.debug=0' --target-dir "$CARGO_TARGET_DIR/tools" \
    --bin ordiag --bin identify --bin metadata --bin ordump --bin rawdata --bin probe 2>"$CARGO_TARGET_DIR/build-tools.log" || { tail -40 "$CARGO_TARGET_DIR/build-tools.log"; return 1; }
}
build_for() {
  mkdir -p "$CARGO_TARGET_DIR"
  build_plain || return 1
  case "$TOOLS" in *" $1 "*) build_tools || return 1;; esac
  case "$ASAN" in *" $1 "*) build_asan || return 1;; esac
  case "$TSAN" in *" $1 "*) build_tsan || return 1;; esac
}
run_for() {
  timeout 850 "$CARGO_TARGET_DIR/plain/debug/orv" "$1" "$2" || return $?
  case "$ASAN" in
  *" $1 "*)
    # ten times fewer cases
    ORV_STAGE=asan:10 ASAN_OPTIONS=abort_on_error=1,detect_leaks=0,allocator_may_return_null=1,detect_stack_use_after_return=0 \
      timeout 850 "$CARGO_TARGET_DIR/asan/$HOST/debug/orv" "$1" "$2" || return $?
    ;;
  esac
  case "$TSAN" in
  *" $1 "*)
    ORV_STAGE=tsan:4 TSAN_OPTIONS=abort_on_error=1,halt_on_error=1,history_size=4,second_deadlock_stack=1 \
      timeout 850 "$CARGO_TARGET_DIR/tsan/$HOST/debug/orv" "$1" "$2" || return $?
    ;;
  esac
}
