"""mkseed(id, prop, needs, breaks, edits=[(file, old, new)...], demo)"""
import json, os, subprocess, shutil, tempfile
V="/verif/seeded/"
def mkseed(sid, prop, needs, breaks, edits, demo):
    top=tempfile.mkdtemp(prefix="mks-")
    try:
        repo=top+"/repo"
        subprocess.run(["git","clone","-q","/repo",repo],check=True)
        for f,o,n in edits:
            p=os.path.join(repo,f); s=open(p).read()
            assert s.count(o)==1,(sid,f,s.count(o),o)
            open(p,"w").write(s.replace(o,n))
        diff=subprocess.run(["git","diff"],cwd=repo,capture_output=True,text=True,check=True).stdout
        # lines removed must be original
        d=V+sid; os.makedirs(d,exist_ok=True)
        open(d+"/patch.diff","w").write(diff)
        open(d+"/demo.py","w").write(demo)
        open(d+"/demo.sh","w").write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(d+"/meta.json","w"),indent=1)
        # original-lines check: removed lines should exist in base 8c7a9da
        base={}
        for f,o,n in edits:
            b=subprocess.run(["git","show","8c7a9da:"+f],cwd="/repo",capture_output=True,text=True).stdout
            rem=[l for l in o.splitlines() if l not in n.splitlines()]
            if not any(l in b.splitlines() for l in rem) and rem: print("WARN",sid,"removed lines not original:",rem)
    finally:
        shutil.rmtree(top)
