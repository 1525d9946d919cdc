#!/bin/bash
# Runs a command in private copies of /repo and /verif (bind-mounted in a user namespace), so that
# seeded bugs can be tried while the real trees stay as they are.  Usage: inns.sh CMD ARG...
W=$(mktemp -d /tmp/inns.XXXXXX)
trap 'rm -rf "$W"' EXIT
cp -a /repo "$W/repo"; cp -a /verif "$W/verif"
W=$W unshare -Urm bash -c 'mount --bind "$W/repo" /repo; mount --bind "$W/verif" /verif; cd /verif; "$@"' x "$@"
