#!/bin/sh
# Builds the analyser from the committed sources, offline.
set -e
cd "$(dirname "$0")/analyzer"
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local
mkdir -p ../bin ../evidence
go build -o ../bin/scte35vg .
