#!/bin/bash
# run all rules with /tmp/ck in parallel
for i in ${*:-A10 A01 A02 A03 A04 A05 A06 A07 A08 A09 A11 A12 A13 C01 H01 H02 H03 H04 H05 H06 C03 C04 C05 H08 H09 H10 W01 W02 W03 W04 W05 W06 W07}; do (s=$(date +%s); o=$(CHECK_VERIF=/tmp/vf CHECK_REPO=/repo timeout 900 /tmp/ck $i 2>&1 | tail -2 | cut -c1-250); echo "$o [$(( $(date +%s)-s ))s]") & [ $(jobs -r | wc -l) -ge 8 ] && wait -n; done; wait
