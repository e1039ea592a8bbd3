#!/bin/bash
# Nothing to compile: checks import /repo's working tree directly. Verify the tools are there.
here="$(cd "$(dirname "$0")" && pwd)"
mkdir -p "$here/../evidence"
"$here/run.sh" --selftest
