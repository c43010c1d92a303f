#!/bin/bash
# Builds the harness once, to see that it does; checks rebuild it from /repo's current tree.
here=$(cd "$(dirname "$0")" && pwd)
. "$here/env.sh" || exit 1
build && build_cli
