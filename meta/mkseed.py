"""mk(id, prop, edits, demo, needs, breaks): write seeded/<id>/ from edits on a scratch copy of /repo's HEAD."""
import json, os, shutil, subprocess, tempfile
ROOT=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def mk(id, prop, edits, demo, needs, breaks, helper=None):
    d=tempfile.mkdtemp(); w=d+"/w"
    subprocess.run(["git","clone","-q","/repo",w],check=True)
    try:
        for f,old,new in edits:
            t=open(f"{w}/{f}").read(); assert t.count(old)==1,(f,old,t.count(old))
            open(f"{w}/{f}","w").write(t.replace(old,new))
        diff=subprocess.run(["git","-C",w,"diff"],check=True,capture_output=True,text=True).stdout
    finally:
        shutil.rmtree(d,ignore_errors=True)
    s=f"{ROOT}/seeded/{id}"; os.makedirs(s,exist_ok=True)
    open(s+"/patch.diff","w").write(diff)
    open(s+"/demo.py","w").write(demo)
    open(s+"/demo.sh","w").write('''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d); trap 'rm -rf "$d"' EXIT
export PYTHONPATH="$PWD:$here" PYTHONDONTWRITEBYTECODE=1 ECOENV_BUFFER_DIR=$d ECOENV_LOG_DIR=$d ECOENV_LOCK_DIR=$d SCRATCH=$d REPO=$PWD
cd "$d" && timeout 120 /opt/venv/bin/python "$here/demo.py" -i 0 -lfo
''')
    json.dump(dict(property=prop,needs=needs,what_it_breaks=breaks),open(s+"/meta.json","w"),indent=1)
    if helper: open(s+"/helper.py","w").write(helper)
