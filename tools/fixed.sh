#!/bin/bash
# tools/fixed.sh PROP [repo-rev]  -> appends the fixed: line of that commit
c=${2:-HEAD}; echo "fixed: property=$1 $(git -C /repo log -1 --format=%h $c) before the fix this did not hold: $(git -C /repo log -1 --format=%s $c | sed 's/^fix: //')" >> /verif/known_findings.txt
