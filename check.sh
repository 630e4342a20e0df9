#!/bin/bash
# check.sh PROPERTY [quick|thorough]: decide one property for /repo's working tree
V=$(cd "$(dirname "$0")" && pwd)
P=$1
TIER=${2:-${VERIF_TIER:-quick}}
mkdir -p "$V/.cache" "$V/evidence"
OUT=$(mktemp -d "$V/.cache/dump.XXXXXX")
trap 'rm -rf "$OUT"' EXIT
exec 9>"$V/.cache/lock"
flock 9
if ! bash "$V/engine/dump.sh" "$OUT" 2>"$OUT/build.log"; then
  tail -40 "$OUT/build.log"
  mkdir -p "$V/replay"
  cp "$OUT/build.log" "$V/replay/$P.txt"
  echo "{\"property\":\"$P\",\"tier\":\"$TIER\",\"seed\":1,\"level\":\"other\",\"coverage\":{\"explanation\":\"/repo does not build; nothing analysed\"},\"wall_s\":0,\"violations\":1}" > "$V/evidence/$P.json"
  echo "$P: /repo does not build, nothing can be decided"
  echo "VIOLATION property=$P replay=$V/replay/$P.txt"
  exit 1
fi
flock -u 9
python3 "$V/rules/main.py" "$P" "$TIER" "$OUT"
rc=$?
if [ $rc -ne 0 ] && [ $rc -ne 1 ]; then exit 2; fi
exit $rc
