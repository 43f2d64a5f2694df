#!/bin/bash
# usage: revert.sh COMMIT CHECK...: run checks on a scratch copy of /repo with one fix reverted (development aid)
d=$(mktemp -d); cp -a /repo "$d/repo"; cd "$d/repo" && git revert -n "$1" >/dev/null 2>&1 || git -C /repo show "$1" | git apply -R || echo "revert conflicts"
shift; cd /verif; for c in "$@"; do VERIF_REPO="$d/repo" python3 -m checks.run $c | grep -v KNOWN | cut -c1-400 | head -4; done; rm -rf "$d"
