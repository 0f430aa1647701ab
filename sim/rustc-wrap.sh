#!/bin/bash
# rustc wrapper: the code under test and the workloads get a callback at every basic block.
rustc="$1"; shift
name=""; prev=""; fine=()
for a in "$@"; do
  if [ "$prev" = "--crate-name" ]; then name="$a"; fi
  # the fine builds also get one at every load and store
  if [ "$a" = "sim_fine" ]; then
    fine=(-C llvm-args=-sanitizer-coverage-trace-loads -C llvm-args=-sanitizer-coverage-trace-stores)
  fi
  prev="$a"
done
case "$name" in
  kofft|core_checks|media_checks|sanity_check|xtask|web_spectrogram)
    export RUST_MIN_STACK=67108864
    exec "$rustc" "$@" -C passes=sancov-module -C llvm-args=-sanitizer-coverage-level=3 \
      -C llvm-args=-sanitizer-coverage-trace-pc-guard "${fine[@]}" -C embed-bitcode=no ;;
  simrt)
    exec "$rustc" "$@" -C codegen-units=1 ;;
esac
exec "$rustc" "$@"
