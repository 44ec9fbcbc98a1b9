#!/bin/bash
# developer helper: extract and verify one unit
U=$1; shift
mkdir -p /verif/work
/verif/tools/vx/target/release/vx /repo /verif/specs/$U.rs /verif/work/$U.rs /verif/work/$U.json /verif/specs/locals.tsv || exit 2
verus /verif/work/$U.rs --triggers-mode silent --time-expanded --multiple-errors 5 "$@" 2>&1 | grep -v "^ *[a-z-]*-time\|time-breakdown\|smt-\|rlimit\|air-time\|^ *[0-9]*\. \|Toolchain\|Platform\|Profile\|Version:\|verus-build"
