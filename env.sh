# Sourced by build.sh and check.sh.
VERIF_DIR=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
export VERIF_DIR
for d in /opt/veriftools/go1.27.3/bin /usr/local/go/bin; do
	[ -x "$d/go" ] && PATH="$d:$PATH" && break
done
export HOME="${HOME:-/root}"
export GOPATH="${GOPATH:-/root/go}" GOMODCACHE="${GOMODCACHE:-/root/go/pkg/mod}"
export GOCACHE="${GOCACHE:-/root/.cache/go-build}"
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GO111MODULE=on GOFLAGS=-mod=readonly GONOSUMDB=* GONOSUMCHECK=1 GOFLAGS=-mod=readonly
mkdir -p "$GOCACHE" 2>/dev/null && [ -w "$GOCACHE" ] || export GOCACHE="${TMPDIR:-/tmp}/verif-gocache"

# build_harness OUT [race]: compiles the harness against /repo's working tree.
# /repo has no go.mod of its own in git, so one is laid over it.
build_harness() {
	local out=$1 race=$2 ov rc
	ov=$(mktemp "${TMPDIR:-/tmp}/verif-overlay-XXXXXX.json")
	printf '{"Replace": {"/repo/go.mod": "%s/harness/repo.mod", "/repo/go.sum": "%s/harness/repo.sum"}}\n' "$VERIF_DIR" "$VERIF_DIR" > "$ov"
	if [ "$race" = race ]; then
		(cd "$VERIF_DIR/harness" && CGO_ENABLED=1 go build -race -tags verif -overlay "$ov" -o "$out" .)
	else
		(cd "$VERIF_DIR/harness" && CGO_ENABLED=0 go build -tags verif -overlay "$ov" -o "$out" .)
	fi
	rc=$?
	rm -f "$ov"
	return $rc
}
