#!/bin/bash
# Warms the build cache; the checks build the verifier themselves.
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOWORK=off CGO_ENABLED=0 GOFLAGS=-mod=mod
cd "$(dirname "$0")/gover" && go vet . 
