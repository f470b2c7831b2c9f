# environment of the harness build (offline, Go 1.25 for testing/synctest)
export GOENV=off GOWORK=off GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=-mod=mod
export GOCACHE=${VERIF_GOCACHE:-/verif/.cache/go-build} PATH=/opt/veriftools/go1.25.14/bin:$PATH CGO_ENABLED=1
unset GOROOT
