#!/bin/bash
# Scratch copies for planted bugs: scratch.sh init | test ID | demo ID | check ID PROP [options] | clean
# Everything happens in /tmp/w: a copy of /repo, of its workspace, and of /verif/sim with paths rewritten.
set -u
W=${W:-/tmp/w}
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_TERM_COLOR=never
export CARGO_PROFILE_RELEASE_LTO=off CARGO_PROFILE_RELEASE_DEBUG=0 CARGO_PROFILE_RELEASE_CODEGEN_UNITS=16 RUST_BACKTRACE=0
ws() {
  mkdir -p $W/ws; find $W/ws -maxdepth 1 -type l -delete
  for p in $W/repo/*; do case "${p##*/}" in Cargo.toml|Cargo.lock|target) ;; *) ln -s "$p" "$W/ws/${p##*/}";; esac; done
  grep -vE '^[[:space:]]*"(experiments|server/dataflows/random_graph)",?[[:space:]]*$' $W/repo/Cargo.toml > $W/ws/Cargo.toml
  cmp -s /opt/vp/Cargo.lock.pristine $W/ws/Cargo.lock || cp /opt/vp/Cargo.lock.pristine $W/ws/Cargo.lock
}
reset() { git -C $W/repo checkout -q -- . ; git -C $W/repo fetch -q /repo HEAD && git -C $W/repo reset -q --hard FETCH_HEAD; }
case "$1" in
init) mkdir -p $W; [ -d $W/repo ] || { git clone -q /repo $W/repo; cp -a /repo/target $W/repo/target; }; reset; ws ;;
clean) rm -rf "$W" ;;
test) # stable tests with the patch
  reset; git -C $W/repo apply "/verif/seeded/$2/patch.diff" || exit 3; ws; cd $W/ws; export CARGO_TARGET_DIR=$W/repo/target
  mkdir -p $W/logs-$2; rm -f $W/logs-$2/*
  timeout -k 5 600 cargo test --workspace --lib --bins --tests --no-fail-fast --offline -- --test-threads 8 > $W/logs-$2/tests.log 2>&1
  timeout -k 5 300 cargo test --workspace --doc --no-fail-fast --offline -- --test-threads 8 > $W/logs-$2/doc.log 2>&1
  [ -n "${NOEXPLAIN:-}" ] || timeout -k 5 400 cargo test --release -p interactive --test explain --offline -- --ignored --skip report_demand_excess > $W/logs-$2/explain.log 2>&1
  sed -i -E "s#^(test )$W/repo/target/[^ ]*/out/#\1#" $W/logs-$2/doc.log
  python3 /opt/vp/results.py $W/out-$2.json "cargo:$W/logs-$2/*.log"
  python3 - $W/out-$2.json <<'P'
import json,sys
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); o=json.load(open(sys.argv[1])); f=b-set(o['passed'])
print("STABLE TESTS", "PASS" if not f else "FAIL", len(b)-len(f), "of", len(b), sorted(f)[:5])
P
  reset ;;
demo) # demo on the clean tree, then with the patch
  reset; cp -r /verif/seeded/$2 $W/demo-$2; cd $W/repo
  timeout 300 bash $W/demo-$2/demo.sh > $W/demo-$2.clean.log 2>&1; echo "demo clean: $?"
  git apply /verif/seeded/$2/patch.diff || exit 3
  timeout 300 bash $W/demo-$2/demo.sh > $W/demo-$2.bug.log 2>&1; echo "demo bug: $?"; tail -2 $W/demo-$2.bug.log
  rm -rf "$W/demo-$2"; reset ;;
check) # a check against a copy of /verif/sim whose paths point at the patched copy
  id=$2; prop=$3; shift 3
  reset; [ "$id" = none ] || git -C $W/repo apply "/verif/seeded/$id/patch.diff" || exit 3
  mkdir -p $W/verif; rsync -a --delete --exclude target /verif/sim $W/verif/ 2>/dev/null || { rm -rf "$W/verif/sim"; cp -a /verif/sim $W/verif/; }
  cp /verif/check /verif/env.sh /verif/known_findings.txt $W/verif/
  grep -rl '/repo/' $W/verif/sim --include=Cargo.toml --include=build.rs --include='*.rs' | xargs -r sed -i "s#/repo/#$W/repo/#g"
  sed -i "s#/verif/.build#$W/verif/.build#" $W/verif/env.sh
  ( cd $W/verif && ./check "$prop" quick "$@" ); echo "check $prop on $id: exit $?"
  reset ;;
esac
