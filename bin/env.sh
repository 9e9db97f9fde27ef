# Toolchain environment of every check (sourced).
export HOME=${HOME:-/root} LANG=C.UTF-8
export PATH=/opt/veriftools/go1.26.10/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GONOSUMDB=* GOWORK=off
export GOPATH=${GOPATH:-/root/go} GOCACHE=${GOCACHE:-/root/.cache/go-build}
HCV_VERIF=$(cd "$(dirname "${BASH_SOURCE[0]}")/.." && pwd)
export HCV_VERIF
