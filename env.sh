if [ -x /opt/veriftools/go1.27.3/bin/go ]; then PATH="/opt/veriftools/go1.27.3/bin:$PATH"; fi
export PATH GOPROXY=off GOFLAGS=-mod=readonly GOSUMDB=off GOTOOLCHAIN=local GOWORK=off
