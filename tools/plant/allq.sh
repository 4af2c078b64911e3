#!/bin/bash
# allq.sh seeds... : all checks quiet?
. /opt/vp/env.sh
cd /verif/harness/ofxmon && go build -o /tmp/ofxmon . && go build -race -o /tmp/ofxmonr . && (cd /repo && go build -o /tmp/ofx ./cmd/ofx)
for s in $@; do for p in ${PROPS:-$(seq -f 'C%02g' 1 29)}; do
 b=/tmp/ofxmon; [ $p = C23 ] && b=/tmp/ofxmonr
 st=$(date +%s); OFX_BIN=/tmp/ofx VERIF_SEED=$s timeout 900 $b $p -verif /tmp/vtest >/tmp/allq.out 2>&1; rc=$?
 echo "$s $p rc=$rc $(($(date +%s)-st))s $(tail -n1 /tmp/allq.out|cut -c1-160)"; [ $rc != 0 ] && cp /tmp/allq.out /tmp/allq.$p.$s.out
done; done
