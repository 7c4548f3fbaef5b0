# regenerate "fixed:" lines: commit subject -> property map kept in /verif/py/fixmap.txt
import subprocess,re
m=[l.rstrip('\n').split('|') for l in open('/verif/py/fixmap.txt') if l.strip()]
log=subprocess.check_output(['git','-C','/repo','log','--reverse','--format=%h|%s','e6416aa..HEAD'],text=True).splitlines()
out=[];miss=[]
for l in log:
    h,s=l.split('|',1)
    e=[x for x in m if x[1]==s]
    if not e: miss.append(s); continue
    out.append(f"fixed: property={e[0][0]} {h} {e[0][2] if len(e[0])>2 and e[0][2] else s[5:]}")
p='/verif/known_findings.txt'
keep=[l for l in open(p) if not l.startswith('fixed:')]
open(p,'w').write(''.join(keep)+'\n'.join(out)+'\n')
print('missing:',*miss,sep='\n')
