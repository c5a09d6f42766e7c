# helper: seed(id, prop, [(file, old, new), ...], needs, breaks, demo_cpp, libs="", head=None)
import re,os,subprocess,json,shutil,tempfile
INC="libdiskpp/include/diskpp/"
DEMO='''#!/bin/bash
# builds the demonstration beside this file against the tree in the current directory
D="$(cd "$(dirname "$0")" && pwd)"; R="$(pwd)"; T="$(mktemp -d)"; trap 'rm -rf "$T"' EXIT
%s
g++ -std=c++20 -O1 -w -fpermissive -I"$D" -I"$R/libdiskpp/include" -I"$R/libdiskpp/contrib/jburkardt/include" -I"$R/libdiskpp/contrib/triangle" -isystem /usr/include/eigen3 -I/usr/include/lua5.4 "$D/demo.cpp" %s -o "$T/demo" || exit 2
cd "$T" && timeout 200 ./demo
'''
def seed(id,prop,edits,needs,breaks,demo,libs="",pre=""):
    d="/verif/seeded/"+id; os.makedirs(d,exist_ok=True)
    w=tempfile.mkdtemp(prefix="mkseed-")
    subprocess.check_call("git -C /repo archive HEAD | tar x -C %s && cd %s && git init -q . && git add -A && git -c user.email=a@b -c user.name=a commit -qm x"%(w,w),shell=True)
    for e in edits: # (file, old, new[, which occurrence])
        f,o,n=e[:3]
        p=os.path.join(w,f); s=open(p).read()
        if len(e)>3:
            k=-1
            for _ in range(e[3]+1): k=s.index(o,k+1)
            s=s[:k]+n+s[k+len(o):]
        else:
            assert s.count(o)==1,(id,f,s.count(o),o)
            s=s.replace(o,n)
        open(p,"w").write(s)
    diff=subprocess.check_output(["git","-C",w,"diff"],text=True); assert diff
    open(d+"/patch.diff","w").write(diff)
    shutil.rmtree(w)
    open(d+"/demo.cpp","w").write(demo)
    todo=set(re.findall(r'#include "(\w+\.hpp)"',demo)); done=set()
    while todo: # library headers the demo uses lie beside it
        h=todo.pop(); done.add(h); src="/verif/lib/"+h
        if os.path.exists(src):
            shutil.copy(src,d+"/"+h); todo|=set(re.findall(r'#include "(\w+\.hpp)"',open(src).read()))-done
    if "jburkardt" in libs and "$T/jb" not in pre:
        pre+='\nfor f in "$R"/libdiskpp/contrib/jburkardt/src/*.cpp; do g++ -O1 -w -I"$R/libdiskpp/contrib/jburkardt/include" -c "$f" -o "$T/jb_$(basename "$f").o" & done; wait'
        libs=libs.replace("jburkardt",'"$T"/jb_*.o')
    if "triangle" in libs:
        pre+='\ngcc -O1 -w -DTRILIBRARY -DREDUCED -DCDT_ONLY -c "$R/libdiskpp/contrib/triangle/triangle_mesher.c" -o "$T/tri.o"'
        libs=libs.replace("triangle",'"$T/tri.o"')
    open(d+"/demo.sh","w").write(DEMO%(pre,libs)); os.chmod(d+"/demo.sh",0o755)
    json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(d+"/meta.json","w"),indent=1)
