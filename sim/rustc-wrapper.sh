#!/bin/bash
# RUSTC_WRAPPER: instrument the crate under test and the client crate (in which
# the generic entry points of the library are instantiated), nothing else.
rustc="$1"; shift
extra=()
prev=""
for a in "$@"; do
  if [ "$prev" = "--crate-name" ]; then
    case "$a" in poker|simclient) extra=(-Zsanitizer=thread -Cunsafe-allow-abi-mismatch=sanitizer);; sim) extra=(-Cunsafe-allow-abi-mismatch=sanitizer);; esac
  fi
  prev="$a"
done
exec "$rustc" "$@" "${extra[@]}"
