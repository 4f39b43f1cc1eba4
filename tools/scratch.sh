#!/bin/bash
# copies /verif and /repo to /tmp/wv and /tmp/wr (checks there judge /tmp/wr): experiments while vcheck runs
mkdir -p /tmp/wv /tmp/wr
rm -rf /tmp/wr; cp -a /repo /tmp/wr
(cd /verif; cp -a check lib gossa harness replay tools known-findings.txt properties.jsonl /tmp/wv/)
sed -i "s#/repo#/tmp/wr#" /tmp/wv/lib/build.py /tmp/wv/lib/oracle.py /tmp/wv/harness/Cargo.toml /tmp/wv/replay/Cargo.toml
grep -rl '"/repo\|/repo/' /tmp/wv/lib /tmp/wv/harness /tmp/wv/replay --include=*.py --include=*.toml --include=*.go --include=*.ts --include=*.js 2>/dev/null | xargs -r sed -i "s#/repo#/tmp/wr#g"
mkdir -p /tmp/wv/evidence /tmp/wv/build; git -C /tmp/wr checkout -q -- .
