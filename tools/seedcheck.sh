#!/bin/bash
# seedcheck.sh ID...: do the planted changes count? (scratch copy of /repo)
w=/tmp/seedcheck
[ -d $w ] || cp -a /repo $w
cd $w && git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD
for i in "$@"; do
s=/verif/seeded/$i
git checkout -q -- .
bash $s/demo.sh > /tmp/demo0.log 2>&1; a=$?
git apply $s/patch.diff || { echo "$i: patch does not apply"; continue; }
cargo build --workspace --all-targets --offline -q 2>/tmp/seedbuild.log || { echo "$i: does not build"; tail -20 /tmp/seedbuild.log; continue; }
f=$(cargo test --workspace --no-fail-fast --offline 2>/dev/null | grep -c '\.\.\. FAILED')
g=-
case $(cat $s/patch.diff) in *av_metrics_decoders*) g=$(cargo test --workspace --no-fail-fast --offline --features ffmpeg 2>/dev/null | grep -c '\.\.\. FAILED');; esac
bash $s/demo.sh > /tmp/demo1.log 2>&1; b=$?
echo "$i: demo unchanged=$a patched=$b, failing tests=$f ffmpeg=$g $(tail -c 200 /tmp/demo1.log | head -3 | tr '\n' ' ')"
[ $a = 0 ] || tail -5 /tmp/demo0.log
done
git checkout -q -- .
