#!/bin/bash
# Every unit of the deductive leg on /repo: one line per unit, the open obligations below it. Development aid.
cd "$(dirname "$0")/.." && PYTHONHASHSEED=0 python3-vt -m vc.main "${@:-all}" -v
