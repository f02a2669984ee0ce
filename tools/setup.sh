#!/bin/bash
# Sanity of the tool chain; every check builds what it needs itself.
cd "$(dirname "$0")/.." || exit 1
set -e
command -v java go python3 >/dev/null
mkdir -p out evidence
cd harness
export GOENV=off GOWORK=off GO111MODULE=on GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOFLAGS=-mod=mod
go vet ./vsync ./sched ./tr
echo ready
