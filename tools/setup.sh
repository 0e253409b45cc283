#!/bin/bash
# Builds the verifier and warms the Go build cache for the harnesses.
set -e
cd "$(dirname "$0")/.."
bash build.sh
cd /repo && GOFLAGS=-mod=readonly GOPROXY=off GOTOOLCHAIN=local go build ./... 
