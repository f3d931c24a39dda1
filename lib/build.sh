# Sourced by check: builds the tools and the simulated repository into
# $B (default /verif/build). Everything is compiled from /repo's working tree.
V=${V:-/verif}
B=${B:-$V/build}
R=${R:-/repo}
export HOME=${HOME:-/root}
export PATH=/usr/local/bin:/usr/bin:/bin:$PATH
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOWORK=off GOPROXY=off GOSUMDB=off
export GOPATH=${GOPATH:-/root/go} GOMODCACHE=${GOMODCACHE:-/root/go/pkg/mod}
export GOCACHE=$B/gocache
export CGO_ENABLED=0
unset GODEBUG GOMAXPROCS GOGC GOMEMLIMIT
trouble() { echo "check: $*" >&2; exit 2; }
build_all() {
	mkdir -p "$B/bin" "$B/ov" || trouble "cannot create $B"
	(
		flock 9
		(cd "$V/tools" && GOFLAGS=-mod=mod go build -o "$B/bin/" ./overlay) || exit 2
		(cd "$V/tools" && GOFLAGS=-mod=mod go build -o "$B/bin/" ./master) & mpid=$!
		cp "$R/go.mod" "$B/go.mod" && cp "$R/go.sum" "$B/go.sum" || exit 2
		"$B/bin/overlay" -repo "$R" -sim "$V/sim" -out "$B/ov" -goroot "$(go env GOROOT)" >"$B/overlay.log" || exit 2
		(cd "$R" && go test -c -vet=off -overlay "$B/ov/overlay.json" -modfile "$B/go.mod" -ldflags=-checklinkname=0 -o "$B/sim.test" ./cmd/cddlc) || exit 2
		wait $mpid || exit 2
	) 9>"$B/.lock" || trouble "build failed"
}
