#!/bin/bash
# seedprobe.sh ID..: runs the quick check of a seeded change's property on a
# clone of /repo with the change applied, and prints the verdict.
. /opt/vp/env.sh
export PATH=/opt/veriftools/go1.24.13/bin:$PATH GOTOOLCHAIN=local
for id in "$@"; do
  S=/verif/seeded/$id; W=$(mktemp -d /tmp/seedprobe.XXXXXX)
  git clone -q --shared /repo "$W/r" && git -C "$W/r" apply "$S/patch.diff" || { echo "$id: does not apply"; continue; }
  P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
  mkdir -p "$W/v/evidence"; cp -r /verif/specs /verif/known_findings.txt /verif/properties.jsonl /verif/.build "$W/v/"
  timeout 900 "$W/v/.build/vfe" -repo "$W/r" -verif "$W/v" -prop "$P" -tier quick > "$W/log" 2>&1; rc=$?
  echo "$id $P rc=$rc $(grep -h VIOLATION "$W/log" | head -1)"
  /bin/rm -rf "$W"
done
