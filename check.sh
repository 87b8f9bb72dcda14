#!/bin/bash
# check.sh PROPERTY: analyses /repo's current source for one property.
cd "$(dirname "$0")" || exit 2
bash build.sh || exit 2
. /opt/vp/env.sh
export GOSIP_VERIF="$PWD"
exec bin/gosipcheck -prop "$1"
