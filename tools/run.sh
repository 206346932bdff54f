#!/bin/bash
# tools/run.sh "IDS" [seeds] -- developer helper: run several checks, short output
for s in ${2:-1}; do for c in $1; do VERIF_SEED=$s /verif/check $c ${3:---stats} 2>&1 | tail -${LINES_MAX:-14} | cut -c1-${WIDTH:-330}; done; done
