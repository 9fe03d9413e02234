#!/bin/bash
# developer: bugcheck.sh ID [PROPERTY...]: runs the checks against a planted bug built in a scratch
# copy of /repo (/tmp/sc, made if missing), leaving /repo alone
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export CARGO_INCREMENTAL=0 CARGO_PROFILE_RELEASE_DEBUG=false CARGO_PROFILE_RELEASE_OPT_LEVEL=3
id=$1; shift
d=/verif/seeded/$id
[ -d /tmp/sc ] || cp -a /repo /tmp/sc
mkdir -p /tmp/bugv; ln -sfn /verif/.build /tmp/bugv/.build; cp /verif/known_findings.txt /tmp/bugv/
cd /tmp/sc && git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD && git apply $d/patch.diff || exit 2
find . -path ./target -prune -o -name '*.rs' -exec touch {} +
CARGO_TARGET_DIR=/tmp/scT cargo build --release --offline 2>&1 | grep -E '^error' -A5
git checkout -q -- .
props=${*:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}
for p in $props; do
    SIM_BIN=/tmp/scT/release/mutagenyx SIM_VERIF=/tmp/bugv /verif/.build/sim/release/sim check --property $p --tier quick --seed 1 > /tmp/bugv/out 2>&1
    echo "$id $p exit $? $(grep -v VIOLATION /tmp/bugv/out | cut -c1-200 | tr '\n' ' ')"
done
