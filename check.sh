#!/bin/bash
# check.sh PROPERTY TIER: builds the analyser and analyses /repo's working tree.
cd "$(dirname "$0")" || exit 2
export HOME=${HOME:-/root}
export PATH=/opt/veriftools/go1.27.3/bin:$PATH
export GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOWORK=off
mkdir -p bin evidence
(cd tool && GOFLAGS=-mod=vendor go build -o ../bin/gpegcheck .) || exit 2
[ "$1" = build ] && exit 0
exec bin/gpegcheck -prop "$1" -tier "${2:-quick}" -repo /repo -known known-findings.txt -evidence "evidence/$1.json"
