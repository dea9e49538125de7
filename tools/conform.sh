#!/bin/bash
# Conformance of the simulated runtime: a program on the shimmed API natively and simulated, and the own tests of the repository under simulation.
S="$(dirname "$(dirname "$(readlink -f "$0")")")"/sim
. /opt/vp/env.sh; export GOFLAGS=-mod=mod GOPROXY=off
set -e
for r in "" -race; do
D=$(mktemp -d ${TMPDIR:-/tmp}/conform.XXXX); cp -a "$S"/. $D/; cd $D; go build -o rw ./rewrite
go build -o nat ./conform/native && ./nat > nat.txt
./rw -repo $D/conform/prog -out $D -shim $D/shim $r; go build -o smd ./conform/simulated && ./smd ${N:-200} > sim.txt
diff nat.txt sim.txt && echo same $(wc -l <nat.txt) $r || true
cd /; rm -rf $D
D=$(mktemp -d ${TMPDIR:-/tmp}/conform.XXXX); cp -a "$S"/. $D/; rm -rf $D/harness $D/conform; cd $D; go build -o rw ./rewrite
./rw -repo ${VERIF_REPO:-/repo} -out $D -shim $D/shim -tests $r;  go vet ./gen/snapws 2>&1 | head -5 || true;  CONFORM_SEEDS=100 go test -count=1 ./gen/snapws -v 2>&1 | tail -40
cd /; rm -rf $D
done
