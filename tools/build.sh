#!/bin/bash
# Builds the analyzer from the committed sources, offline.
set -e
cd "$(dirname "$0")/../analyzer"
export GOFLAGS=-mod=vendor GOPROXY=off GOWORK=off GOTOOLCHAIN=local CGO_ENABLED=0
mkdir -p ../bin
go build -o ../bin/ustackverif.tmp.$$ .
mv ../bin/ustackverif.tmp.$$ ../bin/ustackverif
