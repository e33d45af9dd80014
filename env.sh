here_env=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
export HOME=/root GOROOT=/opt/veriftools/go1.24.13
export PATH=$GOROOT/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOWORK=off
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
export VERIF_KNOWN=$here_env/known_findings.json
