#!/bin/bash
# usage: check.sh ID [race] [promq]
# Rebuilds the harness against /repo's working tree and runs one check.
id=$1; shift
here=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root} LANG=C.UTF-8 TERM=xterm
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly GOWORK=off
export GOPATH=${GOPATH:-/root/go} GOMODCACHE=${GOMODCACHE:-/root/go/pkg/mod} GOCACHE=${GOCACHE:-/root/.cache/go-build}
export VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=${VERIF_TIER:-quick}
unset PQ_DEBUG_LOG_DIRECTORY
work=$(mktemp -d) || exit 2
trap 'rm -rf "$work"' EXIT
race=
for a in "$@"; do [ "$a" = race ] && race=-race; done
cd "$here/harness" || exit 2
go build $race -o "$work/vh" . || { echo "harness build failed"; exit 2; }
for a in "$@"; do
    if [ "$a" = promq ]; then
        go build $race -o "$work/promq" sigs.k8s.io/instrumentation-tools || { echo "promq build failed"; exit 2; }
        export VERIF_PROMQ="$work/promq"
    fi
done
cd "$here" || exit 2
"$work/vh" supervise "$id" "$here"
