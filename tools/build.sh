# builds the verifier from the committed sources (offline) and sets GOCV
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local
V="${V:-/verif}"
GOCV="$V/bin/gocv"
mkdir -p "$V/bin"
(cd "$V/engine" && go build -o "$GOCV" .) || exit 2
