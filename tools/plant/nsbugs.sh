#!/bin/bash
# nsbugs.sh N OUT ids... : run bugs in a private copy N
N=$1; OUT=$2; shift 2
rm -rf /tmp/ns$N.repo /tmp/ns$N.verif; cp -a /repo /tmp/ns$N.repo; git clone -q /verif /tmp/ns$N.verif; cp -a /verif/seeded/. /tmp/ns$N.verif/seeded/
sed 's#/tmp/pl/run.out#/tmp/pl/run'$N'.out#g' /tmp/pl/runbugs.sh > /tmp/pl/runbugs.$N.sh
unshare -Urm bash -c "mount --bind /tmp/ns$N.repo /repo && mount --bind /tmp/ns$N.verif /verif && bash /tmp/pl/runbugs.$N.sh $*" > $OUT 2>&1
rm -rf /tmp/ns$N.repo /tmp/ns$N.verif
