#!/bin/bash
# determinism.sh [runs] [seed]: every run of every property twice, in different processes and at different
# numbers of workers; the event-log hashes, step counts and decisions used must agree line by line.
N=${1:-200} S=${2:-1}; V="$(cd "$(dirname "$0")/.." && pwd)"
P=$(bash "$V/check.sh" --build plain) && R=$(bash "$V/check.sh" --build race) || exit 3
export SIM_JC="$(dirname "$P")/zz_jc"
D=$(mktemp -d); trap '/bin/rm -rf "$D"' EXIT
rc=0
for c in $(seq -f C%02g 1 20); do
  b=$P; case $c in C10|C18) b=$R;; esac
  n=$N; [ $c = C20 ] && n=$((N/10)); 
  mkdir -p "$D/a" "$D/b"
  "$b" worker -prop $c -seed $S -runs $n -dir "$D/a" -perlog 2>/dev/null | grep -E '^[0-9]+ [0-9a-f]+ ' | sort -n >"$D/one"
  for k in 0 1 2 3 4; do "$b" worker -prop $c -seed $S -first $k -stride 5 -runs $n -dir "$D/b" -id $k -perlog 2>/dev/null | grep -E '^[0-9]+ [0-9a-f]+ ' & done | cat >"$D/two.raw"
  wait; sort -n "$D/two.raw" >"$D/two"
  if cmp -s "$D/one" "$D/two" && [ -s "$D/one" ]; then echo "$c $(wc -l <"$D/one") runs identical"; else echo "$c DIFFERS"; diff "$D/one" "$D/two" | head -4; rc=1; fi
done
exit $rc
