export HOME=/root GOTOOLCHAIN=local GOPROXY=off GOFLAGS= GOCACHE=${GOCACHE:-/root/.cache/go-build} GOMODCACHE=/root/go/pkg/mod GOSUMDB=off
GO=/usr/local/bin/go1.23
