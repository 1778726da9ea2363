# environment of the Go tools: offline, everything from the module cache
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GOSUMDB=off
export GOCACHE="${SYMGO_GOCACHE:-$D/.cache/go-build}"
