# Common environment of the checks (sourced).
export HOME="${HOME:-/root}"
export PATH=/opt/veriftools/go1.23.12/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS="-mod=mod -buildvcs=false" GOWORK=off
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
export CGO_ENABLED=1 LC_ALL=C
REPO=${VERIF_REPO:-/repo}

# build_all DIR PROPERTY: instruments $REPO into DIR and builds DIR/h (and DIR/hrace for the concurrency properties).
build_all() {
	local d=$1 p=$2
	cp "$REPO/go.mod" "$d/go.mod" && cp "$REPO/go.sum" "$d/go.sum" || return 1
	(cd "$here/mc/instr" && GO111MODULE=off go build -o "$d/instr" .) || return 1
	(cd "$REPO" && "$d/instr" -repo "$REPO" -out "$d/gen" -src "$here/mc" -modfile "$d/go.mod") || return 1
	(cd "$REPO" && go build -modfile="$d/go.mod" -overlay="$d/gen/overlay.json" -o "$d/h" ./verifmc/h) || return 1
	case "$p" in C05|C08|C10|C17|C26|all)
		(cd "$REPO" && go build -race -modfile="$d/go.mod" -overlay="$d/gen/overlay_race.json" -o "$d/hrace" ./verifmc/h) || return 1 ;;
	esac
}
