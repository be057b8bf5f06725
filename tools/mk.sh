#!/bin/bash
# mk.sh ID: /verif/seeded/ID has demo files, /tmp/edit/ID.py edits the copy (cwd). Makes patch.diff and validates.
ID=$1; S=/verif/seeded/$ID
export PATH=/opt/veriftools/go1.25.14/bin:$PATH HOME=/root GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
W=/tmp/sb/repo; mkdir -p /tmp/sb; rm -rf /tmp/sb/repo; git -C /repo worktree prune; cp -a /repo $W
cd $W && git checkout -q -- . || exit 2
[ -x $S/demo.sh ] || { echo no demo; exit 2; }
mkdir -p /tmp/demo_$ID && cp -r $S/. /tmp/demo_$ID/ && rm -f /tmp/demo_$ID/*.diff /tmp/demo_$ID/meta.json
bash /tmp/demo_$ID/demo.sh > /tmp/demo_$ID.clean 2>&1; echo "demo clean rc=$?"
python3 /tmp/edit/$ID.py || { echo EDIT FAILED; exit 2; }
gofmt -l mpd xml
git diff > $S/patch.diff
go build ./... || { echo BUILD FAILED; exit 2; }
go test -vet=off -count=1 ./... 2>&1 | grep -v "no test files" | tail -5
bash /tmp/demo_$ID/demo.sh > /tmp/demo_$ID.bug 2>&1; echo "demo bug rc=$?"; tail -5 /tmp/demo_$ID.bug
rm -rf /tmp/demo_$ID
