#!/bin/sh
# builds the verifier into /verif/bin (offline)
cd "$(dirname "$0")/gover" && mkdir -p ../bin && GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local go build -o ../bin/gover .
