#!/bin/bash
# check.sh ID: builds the analyzer and runs one check on /repo's working tree.
cd "$(dirname "$0")/analyzer" || exit 2
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=vendor GOWORK=off
if ! out=$(go build -o smsverif . 2>&1); then
	echo "$out"
	exit 2
fi
export SMSVERIF_DIR="$(cd .. && pwd)"
exec ./smsverif check "$1"
