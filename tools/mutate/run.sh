#!/bin/bash
# run.sh FILE SEED N PROPS... : N random mutations of FILE of /repo, each in a
# copy; appends to $OUT which of the checks PROPS reports it, or SURVIVED.
f=$1; seed=$2; n=$3; shift 3
OUT=${OUT:-/tmp/mutations.txt}
V=$(cd "$(dirname "$0")/../.." && pwd)
w=$(mktemp -d /tmp/mutate.XXXXXX); mkdir "$w/o"; cp -a /repo "$w/repo"
cnt=$(cd /repo && go run "$V/tools/mutate/main.go" "$f" "$seed" "$n" "$w/o")
for ((i=0;i<cnt;i++)); do
  cp "$w/o/$i.go" "$w/repo/$f"
  d=$(cat "$w/o/$i.txt")
  (cd "$w/repo" && timeout 100 go build ./... >/dev/null 2>&1) || continue
  st=SURVIVED
  for p in "$@"; do
    (cd "$V" && timeout 400 bin/check -j 3 -repo "$w/repo" "$p" >/dev/null 2>&1) || { st="reported:$p"; break; }
  done
  [ $st = SURVIVED ] && ! (cd "$w/repo" && timeout 100 go test ./... >/dev/null 2>&1) && st=SURVIVED-testfail
  echo "$st $d" >> "$OUT"
done
rm -rf "$w"
