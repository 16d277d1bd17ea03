#!/bin/bash
# seed.sh ID: confirm a planted change in a scratch copy (applies, builds, tests pass, demo passes without and fails with it),
# then run the property's check on it through SA_REPO when asked (seed.sh ID check).
set -u
id=$1; d=/verif/seeded/$id
w=/tmp/seedwork; rm -rf /tmp/seedwork; cp -a /repo /tmp/seedwork
cd $w
bash $d/demo.sh > /tmp/seed_$id.base 2>&1; b=$?
git apply $d/patch.diff || { echo "$id: does not apply"; exit 1; }
bash $d/demo.sh > /tmp/seed_$id.bug 2>&1; g=$?
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_PROFILE_DEV_DEBUG=line-tables-only
[ "${2:-}" = notest ] || timeout 780 cargo test --workspace --no-fail-fast --offline -- --test-threads 8 > /tmp/seed_$id.test 2>&1
[ -f /tmp/seed_$id.test ] || touch /tmp/seed_$id.test
t=$(grep -c "^test .* ok$" /tmp/seed_$id.test); f=$(grep "^test .*FAILED" /tmp/seed_$id.test | tr '\n' ';')
echo "$id: demo base=$b bug=$g tests ok=$t failed=[$f]"
rm -rf /tmp/seedwork
