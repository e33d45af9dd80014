#!/bin/bash
# Builds and runs the demonstration against the tree in the current directory.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
export HOME=/root GOROOT=/opt/veriftools/go1.24.13
export PATH=$GOROOT/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOWORK=off
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
d=$(mktemp -d /tmp/demo.XXXXXX) || exit 9
trap 'rm -rf "$d"' EXIT
cp "$here"/*.go "$d"/ || exit 9
sed 's#^module .*#module github.com/go-oidfed/lib/demo#' "$repo/go.mod" > "$d/go.mod"
cp "$repo/go.sum" "$d/go.sum"
printf '\nrequire github.com/go-oidfed/lib v0.0.0\nreplace github.com/go-oidfed/lib => %s\n' "$repo" >> "$d/go.mod"
cd "$d" || exit 9
go build RACEFLAG -o demo . || exit 9
timeout 200 ./demo
