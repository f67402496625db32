#!/bin/bash
# run every property module (or the given ones); one short block per property
cd "$(dirname "$0")/.."
for p in ${@:-$(ls props | sed -n 's/^p\([0-9]*\).py/P\1/p')}; do python3 check.py $p 2>&1 | grep -v '^VIOLATION\|^KNOWN' | cut -c1-${W:-220} | tail -n ${N:-4}; done
