#!/bin/bash
# compiler launcher: the generator is built without debug information and at -O1 (its behaviour does not depend on it
# and the build is part of every check); everything under easyMockFramework keeps its flags.
args=()
fw=0
for a in "$@"; do case "$a" in */easyMockFramework/src/*) fw=1;; esac; done
for a in "$@"; do
  if [ $fw = 0 ]; then
    case "$a" in -O3|-O2) a=-O1;; -g) continue;; esac
  fi
  args+=("$a")
done
if [ -n "$CCACHE_DIR" ] && [ -x /usr/bin/ccache ]; then exec /usr/bin/ccache "${args[@]}"; fi
exec "${args[@]}"
