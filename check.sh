#!/bin/bash
# check.sh PROPERTY quick|thorough: builds the harness against /repo's working tree and explores.
# Exit 0: the property held everywhere. Exit 1, with a VIOLATION line: it did not. Else: no answer.
here=$(cd "$(dirname "$0")" && pwd)
. "$here/env.sh" || exit 2
prop=$1
tier=${2:-quick}
build || exit 2
if [ "$prop" = P21 ]; then
    build_cli || exit 2
fi
exec "$CARGO_TARGET_DIR/debug/mc" check "$prop" "$tier" "$here"
