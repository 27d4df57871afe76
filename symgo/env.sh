# sourced by every script of /verif
export HOME=/root
export PATH=/opt/veriftools/go1.27.3/bin:/opt/veriftools/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GONOSUMDB='*' GONOSUMCHECK=1 GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build GOWORK=off
export GOFLAGS=-mod=mod
