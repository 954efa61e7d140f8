#!/bin/sh
# builds the analyzer into bin/check
cd "$(dirname "$0")/analyzer" && GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local CGO_ENABLED=0 go build -o ../bin/check .
