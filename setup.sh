#!/bin/bash
# Warms the build cache; every check builds what it needs itself anyway.
set -u
. /opt/vp/env.sh
D=$(mktemp -d /tmp/vsetup.XXXXXXXX) || exit 0
"$(dirname "$0")/check.sh" build "$D/w" >/dev/null 2>&1
rm -rf "$D"
exit 0
