#!/bin/bash
# Warms the build cache (the checks build for themselves).
here=$(cd "$(dirname "$0")" && pwd)
. "$here/env.sh"
cd "$here/harness" || exit 1
mkdir -p "$here/evidence"
bin=$(mktemp -d /tmp/verif-bin.XXXXXX) || exit 1
trap 'rm -rf "$bin"' EXIT
go build -o "$bin/h" . && go build -race -o "$bin/hr" .
