import subprocess,os,json,shutil
G='/repo/generate_constants.py'
src=open(G).read()
demo_head='''#!/bin/bash
# %s
here="$(cd "$(dirname "$0")" && pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
d="$(mktemp -d)" || exit 2
trap 'rm -rf "$d"' EXIT
cp -r . "$d/tree" || exit 2
rm -rf "$d/tree/.git"
cd "$d/tree" || exit 2
'''
bugs={
'c30-string-range':([('''	if e.Valid() {{
		return {enumLower}s[e-1]
	}}
	return fmt''','''	if e != 0 {{
		return {enumLower}s[e-1]
	}}
	return fmt''')],'''python3 ./generate_constants.py || exit 1
cat > demo_test.go <<'X'
package ofxgo

import "testing"

func TestDemo(t *testing.T) {
	if s := AcctTypeCD + 1; s.Valid() || s.String() == "CD" {
		t.Fatal(s)
	}
	_ = (AcctTypeCD + 7).String()
}
X
go test -run '^TestDemo$' .
''','regenerating, then printing a number beyond the last value','String of the regenerated enumerations panics for numbers beyond the last value'),
'c30-set-order':([('''    f.write(header)

    for enum in enums:''','''    f.write(header)

    # Each once
    for enum in set(enums):''')],'''PYTHONHASHSEED=1 python3 ./generate_constants.py && cp constants.go "$d/1" || exit 1
PYTHONHASHSEED=2 python3 ./generate_constants.py && cmp constants.go "$d/1"
''','generating twice, with different hash seeds','generating writes the enumerations in another order each time'),
'c30-update-in-place':([('''with open("constants.go", 'w') as f:''','''import os

# Written in place, so that links and modes stay
with open("constants.go", 'r+' if os.path.exists("constants.go") else 'w') as f:''')],'''cp constants.go "$d/1"
echo '// something which was added by hand' >> constants.go
python3 ./generate_constants.py && cmp constants.go "$d/1"
''','older output which is longer than the new','the end of longer older output is left over'),
'c30-trim-comma':([('''upperValueString = "\\", \\"".join([s.upper() for s in enums[enum][0]])''','''upperValueString = "\\", \\"".join([s.upper().replace(" ", "") for s in enums[enum][0]])''')],'''python3 ./generate_constants.py || exit 1
cat > demo_test.go <<'X'
package ofxgo

import "testing"

func TestDemo(t *testing.T) {
	if OfxSecType1.String() != "TYPE 1" {
		t.Fatal(OfxSecType1)
	}
}
X
go test -run '^TestDemo$' .
''','regenerating, and the one value with a blank in its text','OFXSEC\'s TYPE 1 is written and read as TYPE1 after regenerating'),
}
for id,(subs,demo,needs,breaks) in bugs.items():
    t=src
    for a,b in subs:
        assert t.count(a)==1,(id,t.count(a)); t=t.replace(a,b)
    open(G,'w').write(t)
    d='/verif/seeded/'+id; os.makedirs(d,exist_ok=True)
    open(d+'/patch.diff','w').write(subprocess.run(['git','-C','/repo','diff'],capture_output=True,text=True).stdout)
    open(d+'/demo.sh','w').write(demo_head%id+demo); os.chmod(d+'/demo.sh',0o755)
    json.dump({"property":"C30","needs":needs,"what_it_breaks":breaks},open(d+'/meta.json','w'),indent=1)
    r=subprocess.run(['bash',d+'/demo.sh'],cwd='/repo',capture_output=True).returncode
    subprocess.run(['git','-C','/repo','checkout','-q','--','.'])
    r2=subprocess.run(['bash',d+'/demo.sh'],cwd='/repo',capture_output=True).returncode
    print(id,'patched',r,'clean',r2)
