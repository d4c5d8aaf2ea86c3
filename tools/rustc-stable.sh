#!/bin/bash
# Presents the nightly compiler as a stable one to build scripts (old dependencies probe for nightly features that no longer exist).
for a in "$@"; do case "$a" in --version|-vV|-V) "$MD_SYSROOT/bin/rustc" "$@" | sed 's/-nightly//'; exit 0;; esac; done
exec "$MD_SYSROOT/bin/rustc" "$@"
