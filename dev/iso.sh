#!/bin/bash
# iso.sh NAME COMMAND...: runs a command where /repo and /verif are private copies (development only).
set -e
n=$1; shift
d=/tmp/bt/$n
mkdir -p $d
rm -rf "$d/verif" "$d/repo"
cp -a /repo $d/repo
git -C $d/repo checkout -q -- .
mkdir $d/verif
cd /verif && tar cf - --exclude=./build --exclude=./out --exclude=./evidence . | tar xf - -C $d/verif
mkdir -p $d/verif/evidence
exec unshare -Urm bash -c 'mount --bind '$d'/repo /repo && mount --bind '$d'/verif /verif && cd /verif && exec "$@"' x "$@"
