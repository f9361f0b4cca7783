#!/bin/bash
# dev helper: t.sh NAME [verus args]
cd /verif; n=$1; shift
${VX:-extract/target/debug/vextract} spec/$n.vt --repo ${REPO:-/repo} -o build/t/$n.rs --map build/t/$n.json && verus build/t/$n.rs --triggers-mode silent "$@" 2>&1
