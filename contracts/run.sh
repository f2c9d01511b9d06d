#!/bin/bash
# run.sh NAME: developer shortcut
set -e
n=$1; shift
mkdir -p /verif/.build/vc
/verif/.build/${VXB:-vx}/release/vx /verif/contracts/$n.vx --repo /repo --prelude /verif/contracts --out /verif/.build/vc/$n.rs --map /verif/.build/vc/$n.json --locals /verif/contracts/locals.txt
cd /verif/.build/vc && exec verus $n.rs "$@"
