#!/bin/bash
# Warms the build cache: builds the checker once from the committed files.
V=$(cd "$(dirname "$0")" && pwd)
. "$V/env.sh"
W=$(mktemp -d /tmp/zzverif.XXXXXX) || exit 2
trap 'rm -rf -- "$W"' EXIT
bash "$V/build.sh" "$W"
