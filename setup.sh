#!/bin/bash
# Builds the extractor and the harness; the checks do it themselves when needed.
set -e
cd "$(dirname "$0")"
export PATH=/root/.cargo/bin:$PATH
mkdir -p build evidence
python3 -c '
import sys; sys.argv=["setup"]; sys.path.insert(0,".")
import check
check.build_extract()
e=check.build_harness()
if e: print(e); sys.exit(1)
'
