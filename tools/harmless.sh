#!/bin/bash
# Development tool: rewrites of /repo that change no promised behaviour must leave every check quiet.
# harmless.sh DIFF [PROPERTIES]   (applies the diff to /repo's working tree, and takes it back)
cd "$(dirname "$0")/.."
git -C /repo apply "$(realpath "$1")" || exit 3
for p in ${2:-C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20 C21 C22 C23}; do
  timeout 900 python3 checks/run.py $p > /tmp/harmless.log 2>&1 && echo "$p quiet" || { echo "$p ALARM"; tail -3 /tmp/harmless.log; }
done
git -C /repo checkout -q -- .
