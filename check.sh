#!/bin/bash
# usage: check.sh ID [quick|thorough]   decide property ID on /repo's working tree
#        check.sh replay FILE   re-run one replay file
# VERIF_SEED selects the random choices, VERIF_TIER=quick|thorough the depth.
here=$(cd "$(dirname "$0")" && pwd)
. "$here/env.sh"
if [ "$1" = replay ]; then
    file=$(realpath "$2")
    id=$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["property"])' "$file")
else
    id=$1
    [ -n "$2" ] && export VERIF_TIER=$2
fi
bin=$(bin_of "$id") || { echo "unknown property $id" >&2; exit 2; }
failed() { echo "the harness does not build against /repo" >&2; exit 2; }
build --bin "$bin" || failed
if [ "$1" = replay ]; then
    for profile in release lean; do
        "$CARGO_TARGET_DIR/$profile/$bin" replay "$file" || exit
    done
    exit
fi
# first a smaller number of cases against a build as users make it, without debug assertions,
# then the whole run with debug assertions and overflow checks in the code under test
VERIF_PASS=lean "$CARGO_TARGET_DIR/lean/$bin" check "$id" || exit
exec "$CARGO_TARGET_DIR/release/$bin" check "$id"
