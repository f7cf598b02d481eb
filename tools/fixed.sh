#!/bin/bash
# fixed.sh <property> : list every "fix:" commit of /repo not yet in known-findings.txt under this property
cd "$(dirname "$0")/.."
git -C /repo log --reverse --format='%h %s' | grep ' fix: ' | while read h s; do
  grep -q " $h " known-findings.txt || echo "fixed: property=$1 $h ${s#fix: }" >> known-findings.txt
done
