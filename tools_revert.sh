#!/bin/bash
# Reverts each fix in a clone of /repo and runs the check of its property.
# usage: tools_revert.sh CLONE BUILDDIR [property]
set -u
cd "$1" || exit 1
awk '/^fixed:/{print $2,$3}' /verif/known_findings.txt | sed 's/property=//' | while read p h; do
    [ -n "${3:-}" ] && [ "$p" != "$3" ] && continue
    if ! git revert -n "$h" >/dev/null 2>&1; then
        echo "$p $h conflict"
    else
        r=$(cd /verif && VERIF_REPO="$1" VERIF_BUILDDIR="$2" timeout 900 python3 run.py check "$p" quick 2>&1)
        rc=$?
        echo "$p $h rc=$rc $(echo "$r" | grep -ac '^VIOLATION')"
    fi
    git revert --abort >/dev/null 2>&1
    git reset -q --hard
done
