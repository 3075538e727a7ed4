#!/bin/bash
# checks that the tools are there and that the harness builds
set -e
cd "$(dirname "$0")"
go version
java -version 2>&1 | head -1
python3 -c 'import sys; sys.path.insert(0, "lib"); import run; print(run.build())'
