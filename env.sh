# Sourced by check.sh and setup.sh.
[ -d /opt/veriftools/go1.27.3/bin ] && PATH=/opt/veriftools/go1.27.3/bin:$PATH
export PATH HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOWORK=off CGO_ENABLED=0
export GOPATH=${GOPATH:-/root/go} GOMODCACHE=${GOMODCACHE:-/root/go/pkg/mod} GOCACHE=${GOCACHE:-/root/.cache/go-build}
unset GOFLAGS GO111MODULE HELIUM_DUMP_TEST_FILES
