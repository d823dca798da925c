"""mk.py ID PROP file 'old' 'new' -- builds patch.diff from replacements given in a python spec file."""
import os,subprocess,json,sys,shutil,tempfile
def seed(id, prop, edits, demo, needs, breaks):
    d=f"/verif/seeded/{id}"; os.makedirs(d,exist_ok=True)
    w=tempfile.mkdtemp(prefix="mk")
    subprocess.run(["git","-C","/repo","worktree","add","-q","--detach",w+"/r","HEAD"],check=True)
    for f,old,new in edits:
        p=f"{w}/r/{f}"; s=open(p).read(); assert s.count(old)==1,(id,f,s.count(old),old); open(p,"w").write(s.replace(old,new))
    diff=subprocess.run(["git","-C",w+"/r","diff"],capture_output=True,text=True).stdout
    open(d+"/patch.diff","w").write(diff)
    subprocess.run(["git","-C","/repo","worktree","remove","--force",w+"/r"],check=True); os.rmdir(w)
    open(d+"/demo.py","w").write(demo.lstrip("\n"))
    open(d+"/demo.sh","w").write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=$PWD\nexec timeout 120 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(d+"/meta.json","w"),indent=1)
