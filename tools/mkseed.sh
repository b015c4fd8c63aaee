#!/bin/bash
# mkseed.sh ID PROPERTY: takes the modified scratch copy /tmp/seed-ID (made by 'cp -a /repo'), its file demo_test.go
# and meta.json beside it (/tmp/seed-ID.demo_test.go, .meta.json) and files them under seeded/ID.
id=$1
d=/verif/seeded/$id; mkdir -p $d
git -C /tmp/seed-$id diff > $d/patch.diff
cp /verif/tools/demo.sh $d/demo.sh; chmod +x $d/demo.sh
