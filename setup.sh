#!/bin/bash
# Warms up the build cache: the checks build the harness themselves.
cd "$(dirname "$0")" || exit 1
. ./env.sh
cd harness && go build -o /dev/null . && CGO_ENABLED=1 go build -race -o /dev/null .
