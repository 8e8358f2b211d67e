#!/bin/bash
# Builds the verifier from the committed sources, offline.
. "$(dirname "$0")/env.sh"
mkdir -p "$VERIF_DIR/.bin"
cd "$VERIF_DIR/vgo" && go build -o "$VERIF_DIR/.bin/vgo" .
