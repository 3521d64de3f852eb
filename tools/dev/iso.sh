#!/bin/bash
# run a command with private copies of /repo and /verif/build
d=$(mktemp -d /tmp/iso.XXXXXX)
cp -a /repo $d/repo; cp -a /verif/build $d/build; mkdir -p $d/ev
unshare -Urm bash -c 'd=$1; shift; mount --bind $d/repo /repo && mount --bind $d/build /verif/build && mount --bind $d/ev /verif/evidence && cd /verif && exec "$@"' x $d "$@"
rc=$?
rm -rf "$d"
exit $rc
