#!/bin/bash
. /opt/vp/env.sh
cd /repo || exit 99
cargo build --offline -q -p dnglab --bin dnglab >/dev/null 2>&1 || { cargo build --offline -p dnglab --bin dnglab; exit 99; }
T=$(mktemp -d /tmp/demo.XXXXXX) || exit 99
PYTHONDONTWRITEBYTECODE=1 python3 "$(dirname "$(readlink -f "$0")")/demo.py" "$T"
rc=$?
rm -rf "/tmp/${T#/tmp/}"
exit $rc
