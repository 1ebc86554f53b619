#!/bin/bash
# inplant.sh ID CMD...: runs CMD in /verif of the kept copy (KEEP=1 plant.sh ID) with its patched /repo
export W=/tmp/plant/$1; shift
exec unshare -Urm bash -c 'mount --bind $W/repo /repo && mount --bind $W/verif /verif && cd /verif && exec "$@"' x "$@"
