#!/bin/bash
# Builds the analyser from the committed sources (vendored dependencies, offline).
set -e
cd "$(dirname "$0")"
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=vendor
mkdir -p bin
cd analyzer
go build -o ../bin/vsa.tmp.$$ .
mv ../bin/vsa.tmp.$$ ../bin/vsa
