#!/bin/bash
# Checks that what the checks need is here; every check builds what it needs by itself.
cd "$(dirname "$0")" || exit 1
export PATH=/opt/veriftools/go1.27.3/bin:$PATH
command -v go >/dev/null && command -v java >/dev/null && command -v python3 >/dev/null || exit 1
test -f /opt/veriftools/tla/tla2tools.jar || exit 1
python3 -B -c 'from vlib import core; core.build_harness(); [core.build_cli(x) for x in ("ledger", "acc", "muscular")]; [core.build_cli(x, "tables") for x in ("ledger", "tacc")]' || exit 1
echo ready
