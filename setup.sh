#!/bin/bash
# builds the analyser (offline) into /verif/bin
here=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root}
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOWORK=off GOSUMDB=off
mkdir -p "$here/bin"
cd "$here/ckcheck" && GO=/usr/local/bin/go; [ -x "$GO" ] || GO=go; "$GO" build -o "$here/bin/ckcheck.$$" . && mv "$here/bin/ckcheck.$$" "$here/bin/ckcheck"
