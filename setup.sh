#!/bin/bash
# builds the MIR dumper (rustc driver) and checks that it runs
cd "$(dirname "$0")" || exit 1
bash ./dump.sh "$(pwd)/build/mir.json" && rm -f build/mir.json
