#!/bin/bash
# RUSTC_WRAPPER: compiles the repository's crates (and the workload crate) with
# ThreadSanitizer instrumentation but without the TSan runtime: every atomic and
# memory access becomes a call to a symbol that simrt defines as a scheduling point.
rustc="$1"; shift
name=""
prev=""
for a in "$@"; do
  if [ "$prev" = "--crate-name" ]; then name="$a"; break; fi
  prev="$a"
done
case "$name" in
  runtime|engine|iota_stronghold|stronghold_stm|stronghold_utils|stronghold_native|simcheck)
    RUSTC_BOOTSTRAP=1 exec "$rustc" "$@" -Zsanitizer=thread -Zexternal-clangrt \
      -Cunsafe-allow-abi-mismatch=sanitizer -Cllvm-args=-tsan-instrument-func-entry-exit=0 \
      -Cllvm-args=-tsan-handle-cxx-exceptions=0 -Awarnings ;;
  *) exec "$rustc" "$@" ;;
esac
