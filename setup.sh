#!/bin/bash
# Nothing has to be installed: every check builds what it needs. Verifies the toolchain.
here=$(cd "$(dirname "$0")" && pwd)
export PATH="/opt/veriftools/go1.24.13/bin:$PATH" GOTOOLCHAIN=local GOPROXY=off
go version && python3 -c 'import json,sys;json.load(open(sys.argv[1]))' "$here/MANIFEST.json"
