#!/bin/bash
# tryrevert.sh COMMIT PID...: does the check report the defect again when its repair is taken back?
c=$1; shift
rm -rf /tmp/revrepo.$c; git clone -q ${SRC:-/repo} /tmp/revrepo.$c && cd /tmp/revrepo.$c && git -c user.email=a@b -c user.name=x revert -n "$c" || exit 1
for p in "$@"; do (cd ${VER:-/verif}; VF_REPO=/tmp/revrepo.$c bin/check $p quick | tail -3 | cut -c1-400; true 2>/dev/null); done
rm -rf /tmp/revrepo.$c
