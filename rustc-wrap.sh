#!/bin/bash
# cargo's compiler wrapper: gives the harness crate the same identity in every build, so that type ids (and
# with them the order of component types) are the same in the encoded and in the native program
for a in "$@"; do [ "$prev" = --crate-name ] && name=$a; prev=$a; done
if [ "$name" = replay ]; then
  args=()
  for a in "$@"; do case "$a" in metadata=*) a=metadata=verif;; esac; args+=("$a"); done
  exec "${args[@]}"
fi
exec "$@"
