#!/bin/bash
# cargo's RUSTC_WRAPPER: instrument the code under test (pt) and the scenario
# crate (which instantiates pt's generics); leave everything else alone.
rustc="$1"; shift
case " $* " in
  *" --crate-name pt "*|*" --crate-name scen "*)
    exec "$rustc" "$@" -Zsanitizer=thread -Zexternal-clangrt -Cunsafe-allow-abi-mismatch=sanitizer --cfg pt_sim ;;
  *" --target "*)
    exec "$rustc" "$@" -Cunsafe-allow-abi-mismatch=sanitizer ;;
  *) exec "$rustc" "$@" ;;
esac
