#!/bin/bash
# Build the verifier into bin/ (git-ignored).
set -e
cd "$(dirname "$0")/govc"
GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local go build -o ../bin/govc .
