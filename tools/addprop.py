# helper: python3 tools/addprop.py FILE — FILE defines PROP (text of a P(...) entry), DESIGN (id, text), FIXED [(prop, commit subject part, what)]
import sys, subprocess, os
ns={}; exec(open(sys.argv[1]).read(), ns)
here=os.path.dirname(os.path.abspath(__file__))
if 'PROP' in ns:
    p=here+'/props.py'; s=open(p).read(); s=s.replace("]\nNA = [", ns['PROP'].strip()+",\n]\nNA = [",1); open(p,'w').write(s)
    p=here+'/design.py'; d=open(p).read().rstrip(); assert d.endswith('}'); open(p,'w').write(d[:-1]+'%r: %r,\n}\n'%ns['DESIGN'])
log=[l.split(' ',1) for l in subprocess.check_output(['git','-C','/repo','log','--format=%h %s'],text=True).splitlines()]
with open(here+'/../known_findings.txt','a') as f:
    for pr,t,w in ns.get('FIXED',[]):
        x=[a for a,b in log if t in b]; assert len(x)==1,(t,x)
        f.write(f"fixed: property={pr} {x[0]} {w}\n")
