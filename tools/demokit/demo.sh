#!/bin/bash
# Generates the database package for model.go.txt with the generator of the
# repository in the current directory and runs main.go.txt against it.
driver=@DRIVER@ quote=@QUOTE@
. /opt/vp/env.sh 2>/dev/null
here=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d); trap 'rm -rf -- "$w"' EXIT
repo=$PWD
mkdir -p "$w/d/model" "$w/d/rec" "$w/d/gen"
cp "$here/model.go.txt" "$w/d/model/model.go"
cp "$here/rec.go.txt" "$w/d/rec/rec.go"
cp "$here/main.go.txt" "$w/d/main.go"
cat > "$w/d/gen/main.go" <<G
package main

import (
	"fmt"
	"os"

	"github.com/si3nloong/sqlgen/cmd/sqlgen/codegen"
)

func main() {
	if err := codegen.Generate(&codegen.Config{Source: []string{"./model"}, SkipModTidy: true, Driver: "$driver", QuoteIdentifier: $quote}); err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
}
G
printf 'module d\n\ngo 1.24.0\n' > "$w/d/go.mod"
cat > "$w/go.work" <<M
go 1.24.0
use (
	$repo
	$repo/cmd/sqlgen
	./d
)
replace github.com/si3nloong/sqlgen v1.0.0-beta.0 => $repo
M
cp "$repo/go.work.sum" "$w/" 2>/dev/null
cd "$w/d" && go build -o "$w/generate" ./gen && "$w/generate" && go build -o "$w/demo" . && timeout 120 "$w/demo"
