cd /verif/checker; ONLY="$1" GOFLAGS=-mod=vendor timeout 900 go test -count=1 -run Dbg . -v 2>&1| cut -c1-${CUT:-330} | head -${N:-150}
