#!/bin/bash
# usage: check.sh PROPERTY     analyses /repo's current source
here=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root}
newer=$(find "$here/ckcheck" -name '*.go' -newer "$here/bin/ckcheck" 2>/dev/null | head -1)
if [ ! -x "$here/bin/ckcheck" ] || [ -n "$newer" ]; then
	bash "$here/setup.sh" >&2 || { echo "the analyser does not build" >&2; exit 2; }
fi
# the analysed module is loaded with the toolchain that builds it
export PATH=/opt/veriftools/go1.23.12/bin:$PATH GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOWORK=off
export CK_REPO=${CK_REPO:-/repo} CK_VERIF=${CK_VERIF:-$here}
exec "$here/bin/ckcheck" "$@"
