# sourced by every script of /verif
export PATH=/opt/veriftools/go1.27.3/bin:$PATH
export GOTOOLCHAIN=local GOFLAGS=-mod=readonly GOPROXY=off GOSUMDB=off GO111MODULE=on GOWORK=off CGO_ENABLED=0
export VERIF_BASE="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export VMC_BUILD="$VERIF_BASE/build"
mkdir -p "$VMC_BUILD" "$VERIF_BASE/evidence"
# /repo has no tracked go.mod; whatever is there is replaced during our builds
printf '{"Replace":{"/repo/go.mod":"%s/mc/repo.mod"}}\n' "$VERIF_BASE" > "$VMC_BUILD/overlay.json.$$" && mv "$VMC_BUILD/overlay.json.$$" "$VMC_BUILD/overlay.json"
