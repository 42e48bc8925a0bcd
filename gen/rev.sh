#!/bin/bash
# rev.sh "IDs" COMMIT
rm -rf /tmp/mutrepo; cp -a /repo /tmp/mutrepo; cd /tmp/mutrepo; git show $2 | git apply -R || exit 1
. /opt/vp/env.sh; cd /tmp/mutrepo && go build ./netcdf/... || exit 1
for i in $1; do CHECK_REPO=/tmp/mutrepo CHECK_VERIF=/tmp/vf /tmp/ck $i 2>&1 | tail -${TAILN:-3}|cut -c1-250; done
