#!/bin/bash
# one.sh FILE CHECKER... : apply python edit script FILE then run
python3 $1 || exit 1
bash /opt/vp/build.sh >/dev/null 2>&1 || echo BUILD
shift
"$@"
