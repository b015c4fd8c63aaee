#!/bin/bash
# usage: check.sh Cxx  - decides one property on /repo's current working tree
cd "$(dirname "$0")" || exit 2
V=$PWD
export HOME="${HOME:-/root}"
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH
bash "$V/setup.sh" || exit 2
exec "$V/bin/govc" check -tier "${VERIF_TIER:-quick}" -verif "$V" "$@"
