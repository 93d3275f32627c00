#!/bin/bash
# kitbug.sh ID DRIVER QUOTE  -- lays the demo kit into seeded/ID; model.go and main.go come from /tmp/demo
d=/verif/seeded/$1; mkdir -p $d
sed "s/@DRIVER@/$2/; s/@QUOTE@/$3/" /verif/tools/demokit/demo.sh > $d/demo.sh
cp /verif/tools/demokit/rec.go.txt $d/
cp /tmp/demo/model.go $d/model.go.txt; cp /tmp/demo/main.go $d/main.go.txt
