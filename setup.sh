#!/bin/bash
# Checks build everything they need themselves; this only verifies that the toolchain is there.
export VERIF_ROOT=$(cd "$(dirname "$0")" && pwd)
. "$VERIF_ROOT/env.sh"
go version && python3 --version
