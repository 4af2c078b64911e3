import json,os,re
res={}
for f in ['all1','all2','b4','b5','b6','b7','b8','b9','b10','b11','b12','b13','b14','b15','b16','b17','b18','b19','b20','b21','b22','b23','b24','b25','b26','b27','b28','b29','b30','b31','b32','b33','b34']:
    p='/tmp/pl/%s.txt'%f
    if not os.path.exists(p): continue
    for l in open(p):
        m=re.match(r'(\S+) rc=(\d+) (\d+)s',l)
        if m: res.setdefault(m[1],[]).append((m[2],m[3]))
p='/verif/DESIGN.md'; s=open(p).read()
i=s.index('tier: its exit status and time.')+len('tier: its exit status and time.')
out=' "Missed first" are the\nchecks which were strengthened since to catch the bug.\n\n| bug | needs | exit | s | |\n|---|---|---|---|---|\n'
for b in sorted(os.listdir('/verif/seeded')):
    m=json.load(open('/verif/seeded/%s/meta.json'%b))
    r=res.get(b)
    if not r: print('no result',b); continue
    first='missed first' if r[0][0]=='0' and r[-1][0]!='0' else ('missed' if r[-1][0]=='0' else '')
    out+='| %s | %s | %s | %s | %s |\n'%(b,m['needs'].replace('|','/').replace('\n',' '),r[-1][0],r[-1][1],first)
open(p,'w').write(s[:i]+out)
