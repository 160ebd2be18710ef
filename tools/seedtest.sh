#!/bin/bash
# seedtest.sh [-n] ID...: applies planted bugs one by one to /repo, verifies them (build, tests, demo; skipped with -n)
# and runs the check of their property; undoes everything afterwards.
ROOT="$(cd "$(dirname "$0")/.." && pwd)"
VERIFY=1
if [ "$1" = "-n" ]; then VERIFY=0; shift; fi
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is dirty"; exit 2; }
trap 'git -C /repo checkout -q -- .' EXIT
for id in "$@"; do
	d="$ROOT/seeded/$id"
	prop="$(sed -n 's/.*"property": "\(.*\)".*/\1/p' "$d/meta.json")"
	note=""
	if [ $VERIFY = 1 ]; then
		(cd /repo && timeout 300 bash "$d/demo.sh" >/tmp/seed-demo0.log 2>&1) || note="$note DEMO-FAILS-CLEAN"
	fi
	git -C /repo apply "$d/patch.diff" || { echo "$id: does not apply"; continue; }
	if [ $VERIFY = 1 ]; then
		bash /opt/vp/build.sh >/dev/null 2>&1 || note="$note NOBUILD"
		bash /opt/vp/test.sh /tmp/seed-tests.json >/dev/null 2>&1
		n="$(python3 -c '
import json
b=json.load(open("/opt/vp/BASELINE.json")); r=json.load(open("/tmp/seed-tests.json"))
s=b.get("stable") or b.get("passed") or b.get("tests")
print(len([t for t in s if t not in set(r["passed"])]))' 2>&1 | tail -n 1)"
		[ "$n" = 0 ] || note="$note TESTS-BROKEN($n)"
		(cd /repo && timeout 300 bash "$d/demo.sh" >/tmp/seed-demo1.log 2>&1) && note="$note DEMO-PASSES-PATCHED"
	fi
	t0=$(date +%s)
	VERIF_SEED="${VERIF_SEED:-1}" timeout 900 bash "$ROOT/run.sh" "$prop" quick >/tmp/seed-check.log 2>&1
	rc=$?
	if [ $rc = 1 ] && grep -q "^VIOLATION property=$prop " /tmp/seed-check.log; then res=CAUGHT; else res="MISSED(rc=$rc)"; fi
	git -C /repo checkout -q -- .
	echo "$id $prop $res $(($(date +%s) - t0))s$note"
	[ "$res" = CAUGHT ] && grep -m1 "^check " /tmp/seed-check.log | cut -c1-200
done
