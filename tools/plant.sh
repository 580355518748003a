#!/bin/bash
# plant.sh ID: takes the uncommitted change of the scratch worktree /tmp/wt as /verif/seeded/ID/patch.diff, runs the demo with and without it
set -u
id=$1; d=/verif/seeded/$id; [ -d /tmp/wt ] || git -C /repo worktree add -f --detach /tmp/wt HEAD >/dev/null
git -C /tmp/wt diff > /tmp/plant.diff
if [ -s /tmp/plant.diff ]; then cp /tmp/plant.diff $d/patch.diff; else git -C /tmp/wt apply $d/patch.diff || exit 1; fi
cp -r $d /tmp/plantdemo.$id; chmod +x /tmp/plantdemo.$id/demo.sh
(cd /tmp/wt; timeout 300 bash /tmp/plantdemo.$id/demo.sh > /tmp/plant.out 2>&1; echo "with patch: $?"; tail -3 /tmp/plant.out | cut -c1-300)
git -C /tmp/wt checkout -q -- .
(cd /tmp/wt; timeout 300 bash /tmp/plantdemo.$id/demo.sh > /tmp/plant.out 2>&1; echo "without: $?"; tail -3 /tmp/plant.out | cut -c1-300)
rm -rf /tmp/plantdemo.$id
