#!/bin/bash
# tools/try.sh PATCH ID... : run checks against a patched scratch copy of /repo (development aid; not used by checks)
set -u
patch=$1; shift
W=${TRY_DIR:-/tmp/mut}
mkdir -p $W/v
rsync -a --delete --exclude target --exclude .git /repo/ $W/repo/ 2>/dev/null || { rm -rf -- "$W/repo"; mkdir -p $W/repo; (cd /repo && tar cf - --exclude ./target --exclude ./.git .) | (cd $W/repo && tar xf -); }
mkdir -p $W/sim && rm -rf -- "$W/sim/src" && cp -a /verif/check.sh $W/ && cp -a /verif/sim/{src,engine,golden,Cargo.toml,Cargo.lock,build.rs,hooks.c,build_env.sh} $W/sim/
sed -i "s#path = \"/repo\"#path = \"$W/repo\"#" $W/sim/Cargo.toml
if [ "$patch" != none ]; then (cd $W/repo && patch -p1 -s < "$patch") || { echo "PATCH FAILED"; exit 3; }; fi
for id in "$@"; do
  SIM_TARGET=$W/target SIM_VERIF=$W/v timeout 900 bash $W/check.sh $id 2>&1 | cut -c1-400 | grep -v "^  at\|^warning" | tail -4
  echo "  => $(basename $patch) $id exit ${PIPESTATUS[0]}"
done
