#!/bin/bash
# builds the checker from the committed files
export VERIF_DIR="$(cd "$(dirname "$0")" && pwd)"
. "$VERIF_DIR/env.sh"
build_mc
