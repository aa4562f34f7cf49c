#!/bin/bash
# Proves determinism: digests of the same runs from several processes, orders
# and partitions must be equal. Usage: tools/determinism.sh [scale]
here="$(cd "$(dirname "$0")/.." && pwd)"
export DSIM_VERIF="$here"
bin="$here/target/sim/release/dsim"
scale="${1:-1}"
tmp="$(mktemp -d)"
bad=0
for p in C01 C02 C03 C04 C05 C06 C07 C08 H01 H02 H03 H04 H05 P01 P02 P03 P04 P05 P06 P07 R01 A01 A02 A03 A04 A05 A06 A07 A08; do
    case $p in A*) n=60 ;; C07|P02|P04|P06) n=150 ;; C06|P01|P03|P07) n=300 ;; *) n=2000 ;; esac
    n=$((n * scale))
    for seed in 1 77; do
        for part in 0 1 2; do # one pass split over 3 interleaved processes
            (export DSIM_WORK="$tmp/wa$part"; "$bin" digest --prop $p --seed $seed --from $part --to $n --step 3 >"$tmp/a.$part") &
        done
        (export DSIM_WORK="$tmp/wb"; "$bin" digest --prop $p --seed $seed --from 0 --to $n --reverse x >"$tmp/b") &
        (export DSIM_WORK="$tmp/wc"; "$bin" digest --prop $p --seed $seed --from 0 --to $((n / 2)) >"$tmp/c1") &
        (export DSIM_WORK="$tmp/wd"; "$bin" digest --prop $p --seed $seed --from $((n / 2)) --to $n >"$tmp/c2") &
        wait
        sort -n "$tmp"/a.* >"$tmp/1"; sort -n "$tmp/b" >"$tmp/2"; sort -n "$tmp/c1" "$tmp/c2" >"$tmp/3"
        if cmp -s "$tmp/1" "$tmp/2" && cmp -s "$tmp/1" "$tmp/3" && [ "$(wc -l <"$tmp/1")" = "$n" ]; then
            echo "$p seed $seed: $n runs, three executions each, identical"
        else
            echo "$p seed $seed: DIFFERENT"; diff "$tmp/1" "$tmp/2" | head -4; bad=1
        fi
    done
done
rm -rf "$tmp"
exit $bad
