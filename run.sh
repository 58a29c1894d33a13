#!/bin/bash
# run.sh PROPERTY [quick|thorough]   build the checker from /repo's tree and run a check
# run.sh replay FILE                 show the history of a violation
set -u
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
export VERIF_DIR=$here
repo=${VERIF_REPO:-/repo}
prop=$1
tmp=$(mktemp -d /tmp/verif.XXXXXX)
trap 'rm -rf "$tmp"' EXIT
cp "$repo/go.mod" "$repo/go.sum" "$tmp/"

overlay() { # pieces...
  local pieces=("$@") p f
  printf '{"Replace": {\n'
  if [ "$prop" = C15 ]; then
    # hooks in the locks of package sync, for the controlled scheduler
    local root; root=$(go env GOROOT)/src
    local acq='\tif VerifHook != nil \&\& verifAcquire(unsafe.Pointer'
    local rel='\tif VerifHook != nil {\n\t\tdefer verifRelease(unsafe.Pointer'
    sed -e 's/^func (m \*Mutex) Lock() {$/&\n'"$acq"'(m), m.TryLock) {\n\t\treturn\n\t}/' \
        -e 's/^func (m \*Mutex) Unlock() {$/&\n'"$rel"'(m))\n\t}/' \
        -e 's/^\tisync "internal\/sync"$/&\n\t"unsafe"/' "$root/sync/mutex.go" >"$tmp/mutex.go"
    sed -e 's/^func (rw \*RWMutex) Lock() {$/&\n'"$acq"'(rw), rw.TryLock) {\n\t\treturn\n\t}/' \
        -e 's/^func (rw \*RWMutex) RLock() {$/&\n'"$acq"'(rw), rw.TryRLock) {\n\t\treturn\n\t}/' \
        -e 's/^func (rw \*RWMutex) R*Unlock() {$/&\n'"$rel"'(rw))\n\t}/' "$root/sync/rwmutex.go" >"$tmp/rwmutex.go"
    printf '  "%s": "%s",\n' "$root/sync/mutex.go" "$tmp/mutex.go" "$root/sync/rwmutex.go" "$tmp/rwmutex.go" \
      "$root/sync/zz_verif.go" "$here/src/std/sync_zz.go.txt" "$root/runtime/zz_verif.go" "$here/src/std/runtime_zz.go.txt"
  fi
  for p in "${pieces[@]}"; do
    printf '  "%s/zz_verif_%s.go": "%s/src/hook/%s.go",\n' "$repo" "$p" "$here" "$p"
  done
  printf '  "%s/zzverif/empty.go": "%s/src/hook/empty.go.txt"' "$repo" "$here"
  for f in "$here"/src/check/*.go; do
    printf ',\n  "%s/zzverif/%s": "%s"' "$repo" "$(basename "$f")" "$f"
  done
  printf '\n}}\n'
}
build() { # output, extra flags...
  local out=$1; shift
  (cd "$repo" && go build "$@" -overlay "$tmp/overlay.json" -modfile "$tmp/go.mod" -o "$out" ./zzverif)
}
race=()
[ "$prop" = C15 ] && race=(-race -tags verifsched)
pieces=(core grid state keyboard)
overlay "${pieces[@]}" >"$tmp/overlay.json"
if ! build "$tmp/check" "${race[@]}" 2>"$tmp/build.log"; then
  # where private names have changed, the pieces of the hook that still build
  for i in "${!pieces[@]}"; do
    p=${pieces[$i]}
    others=()
    for o in core grid state keyboard; do [ $o = $p ] || others+=(${o}_public); done
    overlay "$p" "${others[@]}" >"$tmp/overlay.json"
    if ! build "$tmp/check" 2>>"$tmp/build.log"; then
      pieces[$i]=${p}_public
      echo "hook piece $p does not build here" >&2
    fi
  done
  # a running read loop may hold on to the buffers it started with
  [ "${pieces[0]}" = core ] || pieces[1]=grid_public
  overlay "${pieces[@]}" >"$tmp/overlay.json"
  if ! build "$tmp/check" "${race[@]}" 2>"$tmp/build2.log"; then
    cat "$tmp/build.log" "$tmp/build2.log" >&2
    echo "the checker does not build" >&2
    exit 3
  fi
fi
export VERIF_TMP=$tmp
mkdir -p "$here/evidence/replay"
log=$here/evidence/replay/$prop.log
[ "$prop" = setup ] && exit 0
[ "$prop" = replay ] && { "$tmp/check" "$@"; exit $?; }
"$tmp/check" "$@" 2>"$log"
rc=$?
if [ $rc -ne 0 ] && [ $rc -ne 1 ]; then
  # the checker itself died: a panic outside of the checked goroutine
  if grep -q 'ricochet1k/termemu\.' "$log" && grep -q -e '^panic:' -e '^fatal error:' "$log"; then
    head -60 "$log"
    cat >"$here/evidence/$prop.json" <<E
{"property": "$prop", "tier": "${VERIF_TIER:-quick}", "seed": ${VERIF_SEED:-0}, "level": "other",
 "coverage": {"explanation": "the process under check died, see replay"}, "wall_s": 0, "violations": 1}
E
    echo "VIOLATION property=$prop replay=$log"
    exit 1
  fi
  tail -40 "$log" >&2
fi
exit $rc
