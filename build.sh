#!/bin/bash
# builds the engine into /verif/bin (ignored by git)
set -e
cd "$(dirname "$0")/engine"
export PATH=/usr/local/go/bin:$PATH GOSUMDB=off GOPROXY=off GOFLAGS=-mod=mod
mkdir -p ../bin
go build -o ../bin/gosym .
