#!/bin/bash
# Warms the Go build cache (optional: every check builds what it needs).
cd "$(dirname "$0")" || exit 1
MC_BUILD_ONLY=1 bash check.sh C01 && MC_BUILD_ONLY=1 bash check.sh C22
