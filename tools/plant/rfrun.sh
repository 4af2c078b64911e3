. /opt/vp/env.sh
cd /verif/harness/ofxmon && go build -o /tmp/rf.ofxmon . && go build -race -o /tmp/rf.ofxmonr . && (cd /repo && go build -o /tmp/rf.ofx ./cmd/ofx)
for p in $(seq -f 'C%02g' 1 29); do
 b=/tmp/rf.ofxmon; [ $p = C23 ] && b=/tmp/rf.ofxmonr
 OFX_BIN=/tmp/rf.ofx VERIF_SEED=5 timeout 900 $b $p -verif /tmp/rf.vtest >/tmp/rf.$p.out 2>&1; echo "$p $?"
done
