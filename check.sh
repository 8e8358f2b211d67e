#!/bin/bash
# Usage: check.sh PROPERTY -- verifies the contracts of one property against /repo's working tree.
. "$(dirname "$0")/env.sh"
[ -x "$VERIF_DIR/.bin/vgo" ] || bash "$VERIF_DIR/setup.sh" >&2 || exit 2
exec "$VERIF_DIR/.bin/vgo" check "$1"
