import sys,os,json,subprocess,re
# usage: mk.py id property needs what < script with sections
def mk(id, prop, edits, needs, what, demo):
    subprocess.run("git -C /tmp/bug checkout -q -- . && git -C /tmp/bug fetch -q /repo HEAD && git -C /tmp/bug reset -q --hard FETCH_HEAD",shell=True,check=True)
    for f,a,b in edits:
        p='/tmp/bug/'+f; s=open(p).read(); assert s.count(a)==1,(id,f,s.count(a),a); open(p,'w').write(s.replace(a,b))
    subprocess.run(["/verif/tools/newbug.sh",id],check=True)
    d='/verif/seeded/'+id+'/'
    json.dump(dict(property=prop,needs=needs,what_it_breaks=what),open(d+'meta.json','w'),indent=1)
    open(d+'demo.sh','w').write('#!/bin/bash\n. "$(dirname "$0")/kit.sh"\npython3 - <<\'PYEND\'\nfrom demolib import *\n'+demo.strip('\n')+'\nPYEND\n')
    os.chmod(d+'demo.sh',0o755)
