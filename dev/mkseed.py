import sys, os, subprocess, shutil, json
sys.path.insert(0,'/verif/dev')
import bugs, seeds
out='/verif/seeded'
pre=open('/verif/dev/toy.rs').read()
bvpre="#![allow(dead_code, unused_imports)]\nuse ruler::*;\n"
scr='/tmp/seedw/repo'
only=sys.argv[1:]
for id,s in seeds.S.items():
    if only and id not in only: continue
    shutil.rmtree(scr,ignore_errors=True)
    os.makedirs(scr)
    subprocess.check_call("git -C /repo archive HEAD src | tar x -C %s && cd %s && git init -q && git add -A && git -c user.name=x -c user.email=x@x commit -qm x"%(scr,scr),shell=True)
    edits=bugs.V[s['bug']] if s['bug'] in bugs.V else s['edits']
    for f,o,n in edits:
        p=os.path.join(scr,f); t=open(p).read(); assert t.count(o)==1,(id,f,t.count(o)); open(p,'w').write(t.replace(o,n))
    d=os.path.join(out,id); os.makedirs(d,exist_ok=True)
    diff=subprocess.check_output(['git','-C',scr,'diff'],text=True)
    open(d+'/patch.diff','w').write(diff)
    shutil.copy('/verif/dev/demo.sh.tmpl',d+'/demo.sh'); os.chmod(d+'/demo.sh',0o755)
    open(d+'/demo.rs','w').write((pre if s['prelude']=='toy' else bvpre)+s['body'])
    json.dump(dict(property=s['pid'],needs=s['needs'],what_it_breaks=s['breaks']),open(d+'/meta.json','w'),indent=1)
