#!/bin/bash
# builds the analyzer from the committed files (its dependencies are vendored)
cd "$(dirname "$0")/analyzer" || exit 1
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=vendor GOWORK=off
go build -o smsverif .
