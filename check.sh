#!/bin/bash
# check.sh PROPERTY: decide one property for the current /repo working tree.
here="$(cd "$(dirname "$0")" && pwd)"
bash "$here/build.sh" >&2 || exit 2
. /opt/vp/env.sh
tier="${VERIF_TIER:-quick}"
budget=560; [ "$tier" = thorough ] && budget=2400
exec "$here/build/govc" -repo /repo -contracts "$here/contracts" -prop "$1" -tier "$tier" -budget "$budget" -out "$here"
