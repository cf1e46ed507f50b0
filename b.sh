#!/bin/bash
# builds the verifier
cd "$(dirname "$0")/gocv" || exit 1
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local
mkdir -p ../bin
go build -o ../bin/gocv .
