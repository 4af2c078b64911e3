#!/bin/bash
SURV=$1; OUT=$2; P=$3; N=$4
rm -rf /tmp/mc$P.repo /tmp/mc$P.verif; cp -a /repo /tmp/mc$P.repo; git clone -q /verif /tmp/mc$P.verif
unshare -Urm bash -c "mount --bind /tmp/mc$P.repo /repo && mount --bind /tmp/mc$P.verif /verif && python3 /tmp/mut_check2.py $SURV $OUT $P $N"
