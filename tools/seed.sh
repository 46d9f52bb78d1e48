#!/bin/bash
# Development helper (not used by any check). Usage: tools/seed.sh ID EDIT.py : applies EDIT.py (cwd = scratch clone of /repo) and stores the diff as seeded/ID/patch.diff,
# then runs seeded/ID/demo.sh on the clean and on the changed clone.
set -e
id=$1; edit=$2
D=/tmp/seed/w-$id
rm -rf "$D"; git clone -q /repo "$D"
mkdir -p /verif/seeded/$id
cd "$D"
if [ -n "$edit" ]; then python3 "$edit"; git diff > /verif/seeded/$id/patch.diff; else git apply /verif/seeded/$id/patch.diff; fi
cat /verif/seeded/$id/patch.diff | head -60
rm -rf /tmp/seed/demo-$id; cp -r /verif/seeded/$id /tmp/seed/demo-$id; rm -f /tmp/seed/demo-$id/patch.diff /tmp/seed/demo-$id/meta.json
cd /tmp/seed/base && git pull -q
set +e
(cd /tmp/seed/base && DEMO_REPO=/tmp/seed/base bash /tmp/seed/demo-$id/demo.sh > /tmp/seed/demo-$id/clean.out 2>&1); echo "clean rc=$?"; tail -3 /tmp/seed/demo-$id/clean.out
(cd "$D" && DEMO_REPO="$D" bash /tmp/seed/demo-$id/demo.sh > /tmp/seed/demo-$id/bug.out 2>&1); echo "bug rc=$?"; tail -3 /tmp/seed/demo-$id/bug.out
