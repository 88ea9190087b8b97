#!/bin/bash
# rebuild the engine
cd /verif/engine && GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOSUMDB=off go build -o /tmp/gosym . && cp /tmp/gosym ../bin/
