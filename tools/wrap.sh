#!/bin/bash
# RUSTC_WORKSPACE_WRAPPER: runs the MIR dumping driver instead of rustc.
export LD_LIBRARY_PATH=$MD_SYSROOT/lib RUSTC_BOOTSTRAP=1
exec "$MD_BUILD/mirdump" "$@"
