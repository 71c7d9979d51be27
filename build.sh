#!/bin/bash
# build.sh DIR [ID]: builds DIR/zzverif from /verif/harness inside /repo's module
# through an overlay; nothing is written in /repo. Some checks need more:
#   C23, C25: DIR/thema, the command
#   C17: DIR/zzrace, the checker under the race detector, with thema's use of package
#        sync replaced by sched/zzsync.go, and a copy of CUE whose internal locks are
#        hidden from the race detector (sched/nosync.go)
W=${1:?}
V=$(cd "$(dirname "$0")" && pwd)
. "$V/env.sh"
R=${VERIF_REPO:-/repo}
cp "$R/go.mod" "$W/go.mod" && cp "$R/go.sum" "$W/go.sum" || exit 2
harness() {
  for f in "$V"/harness/*.go; do
    printf '%s"%s/internal/zzverif/%s":"%s"' "$sep" "$R" "$(basename "$f")" "$f"
    sep=$',\n'
  done
}
{ sep=''; echo '{"Replace":{'; harness; echo '}}'; } > "$W/overlay.json"
cd "$R" && go build -modfile="$W/go.mod" -overlay "$W/overlay.json" -o "$W/zzverif" ./internal/zzverif || exit $?
case "${2:-all}" in C23 | C25 | all) go build -modfile="$W/go.mod" -o "$W/thema" ./cmd/thema || exit $? ;; esac
case "${2:-all}" in C17 | all)
  C=$(go list -modfile="$W/go.mod" -m -f '{{.Dir}}' cuelang.org/go) || exit 2
  mkdir -p "$W/cue/internal/zznosync" "$W/sync" || exit 2
  (cd "$C" && find . -type f -not -name '*_test.go' -not -path '*/testdata/*' -not -path './doc/*' -not -path './_*' | tar cf - -T -) | tar xf - -C "$W/cue" || exit 2
  chmod -R u+w "$W/cue"
  cp "$V/sched/nosync.go" "$W/cue/internal/zznosync/nosync.go" || exit 2
  for f in internal/core/runtime/index.go internal/core/runtime/imports.go cue/token/position.go internal/core/adt/prof.go; do
    [ -f "$W/cue/$f" ] && sed -i 's#^\(import \|\t\)"sync"$#\1sync "cuelang.org/go/internal/zznosync"#' "$W/cue/$f"
  done
  cp "$W/go.mod" "$W/race.mod" && cp "$W/go.sum" "$W/race.sum" || exit 2
  go mod edit -replace "cuelang.org/go=$W/cue" "$W/race.mod" || exit 2
  {
    sep=''
    echo '{"Replace":{'
    harness
    printf ',\n"%s/internal/zzsync/zzsync.go":"%s"' "$R" "$V/sched/zzsync.go"
    i=0
    while IFS= read -r f; do
      i=$((i + 1))
      sed 's#^\(import \|\t\)"sync"$#\1sync "github.com/grafana/thema/internal/zzsync"#' "$f" > "$W/sync/$i.go"
      printf ',\n"%s":"%s"' "$f" "$W/sync/$i.go"
    done < <(grep -rlE '^(import |	)"sync"$' --include=*.go "$R" | grep -v _test.go)
    # pools order what uses them, at random
    P=$(go env GOROOT)/src/sync/pool.go
    sed -e 's/^func (p \*Pool) Put(x any) {$/&\n\tif race.Enabled {\n\t\treturn\n\t}/' \
      -e 's/^func (p \*Pool) Get() any {$/&\n\tif race.Enabled {\n\t\tif p.New != nil {\n\t\t\treturn p.New()\n\t\t}\n\t\treturn nil\n\t}/' "$P" > "$W/sync/pool.go"
    printf ',\n"%s":"%s"' "$P" "$W/sync/pool.go"
    echo '}}'
  } > "$W/race.json"
  go build -race -modfile="$W/race.mod" -overlay "$W/race.json" -o "$W/zzrace" ./internal/zzverif || exit $?
  ;;
esac
