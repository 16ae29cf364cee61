#!/bin/bash
# Adds the thread-sanitizer instrumentation (callbacks only, no sanitizer runtime) to the code under
# test and to the scenarios; everything else is compiled as usual.
rustc="$1"; shift
name=""
prev=""
for a in "$@"; do
  if [ "$prev" = "--crate-name" ]; then name="$a"; fi
  prev="$a"
done
case "$name" in
  stabby|stabby_abi)
    export RUSTC_BOOTSTRAP=1
    exec "$rustc" "$@" -Zsanitizer=thread -Zexternal-clangrt -Cunsafe-allow-abi-mismatch=sanitizer --cap-lints allow ;;
  simcheck|simenums)
    export RUSTC_BOOTSTRAP=1
    exec "$rustc" "$@" -Zsanitizer=thread -Zexternal-clangrt -Cunsafe-allow-abi-mismatch=sanitizer -Crelocation-model=static -Clink-args=-rdynamic --cap-lints allow ;;
  *)
    exec "$rustc" "$@" ;;
esac
