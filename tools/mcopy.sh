#!/bin/bash
# scratch copy of /repo at DIR with optional patch; usage: mcopy.sh DIR [patch]
set -e
rm -rf "$1"; cp -a /repo "$1"
[ -z "$2" ] || git -C "$1" apply "$2"
