. /opt/vp/env.sh; cd /verif/checker && GOFLAGS=-mod=vendor go vet . && GOFLAGS=-mod=vendor go build -o /tmp/ck . || exit 1
for i in "$@"; do ( time CHECK_VERIF=/tmp/vf /tmp/ck $i ) 2>&1 | grep -v "^$\|user\|sys" | cut -c1-${CUT:-300} | head -${HEADN:-25}; done
