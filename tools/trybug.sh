#!/bin/bash
# trybug.sh ID [CHECK...] : try seeded/ID in a scratch copy of /repo: demo passes before, build and tests pass with the
# patch, demo fails; then runs the given checks (quick) against the copy.
ID=$1; shift; W=${TRYBUG_DIR:-/tmp/w}/$ID; S=/verif/seeded/$ID
mkdir -p $W; rm -rf "$W/repo"; cp -a /repo $W/repo; cd $W/repo
if [ -z "$NODEMO" ]; then bash $S/demo.sh > $W/demo0.log 2>&1; echo "demo clean: $?"; fi
git apply $S/patch.diff || exit 1
# build with the copy as source
meson=$(command -v meson)
for b in _build _build_dbg; do [ -d $b ] && (rm -rf $b); done
sed "s#/repo#$W/repo#g" /opt/vp/build.sh > $W/build.sh; sed "s#/repo#$W/repo#g; s#/opt/vp/build.sh#$W/build.sh#" /opt/vp/test.sh > $W/test.sh
bash $W/build.sh > $W/build.log 2>&1 || { echo BUILD FAILED; tail -5 $W/build.log; exit 1; }
bash $W/test.sh $W/o.json > $W/test.log 2>&1
python3 -c "
import json;d=json.load(open('$W/o.json'));print('tests',len(d['passed']) if hasattr(d['passed'],'__len__') else d['passed'],d['failed'])"
if [ -z "$NODEMO" ]; then timeout 300 bash $S/demo.sh > $W/demo1.log 2>&1; echo "demo patched: $? $(tail -1 $W/demo1.log|cut -c1-150)"; fi
for c in "$@"; do VP_REPO=$W/repo python3 /verif/checks/run.py $c quick 2>&1 | tail -1 | cut -c1-250; done
[ -n "$KEEP" ] || rm -rf "$W"
