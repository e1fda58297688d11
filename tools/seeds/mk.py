#!/usr/bin/env python3
"""Makes /verif/seeded from the definitions in defs*.py: mk.py [ID...].
Each change is tried in a scratch copy of /repo: it has to compile, pass the
tests, and make its demonstration fail."""
import subprocess, os, sys, shutil, json, glob, tempfile
here=os.path.dirname(os.path.abspath(__file__))
seeds={}
def seed(id, prop, edits, demo, needs, breaks, race=False):
    assert id not in seeds, id
    seeds[id]=dict(prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, race=race)
for f in sorted(glob.glob(here+"/defs*.py")):
    exec(open(f).read())
common=open(here+"/common.go.txt").read()
demosh=open(here+"/demo.sh.txt").read()
def run(cmd, cwd, timeout=300):
    try:
        p=subprocess.run(cmd,cwd=cwd,shell=isinstance(cmd,str),capture_output=True,text=True,timeout=timeout)
        return p.returncode,p.stdout+p.stderr
    except subprocess.TimeoutExpired:
        return -1,"timeout"
orig=subprocess.run(["git","-C","/repo","rev-list","--max-parents=0","HEAD"],capture_output=True,text=True).stdout.split()[0]
base="263caa2"
blames={}
def orig_line(f,ln):
    if f not in blames:
        b=subprocess.run(["git","-C","/repo","blame","-s",f],capture_output=True,text=True).stdout.splitlines()
        blames[f]=[x.startswith("^") for x in b]
    return blames[f][ln-1]
def main():
    want=sys.argv[1:] or sorted(seeds)
    bad=0
    for id in want:
        s=seeds[id]
        wt="/tmp/seedwt"
        shutil.rmtree(wt,ignore_errors=True)
        run(["cp","-a","/repo",wt],"/")
        ok=True
        for f,old,new in s["edits"]:
            t=open(wt+"/"+f).read()
            if t.count(old)!=1:
                print(id,"PATTERN",f,t.count(old),repr(old)[:80]); ok=False; break
            open(wt+"/"+f,"w").write(t.replace(old,new))
        if not ok: bad+=1; continue
        run("gofmt -l -w $(git diff --name-only)",wt)
        diff=subprocess.run(["git","diff"],cwd=wt,capture_output=True,text=True).stdout
        d="/verif/seeded/"+id
        shutil.rmtree(d,ignore_errors=True); os.makedirs(d)
        open(d+"/common.go","w").write(common)
        open(d+"/main.go","w").write("package main\n\n"+s["demo"].strip()+"\n")
        need=[]
        src=open(d+"/main.go").read()
        imps=[]
        for pkg,tok in [("fmt","fmt."),("strings","strings."),("sync","sync."),("runtime","runtime."),("time","time."),("strconv","strconv."),("reflect","reflect."),("errors","errors."),("io","io."),("os","os."),("os/exec","exec."),("hash/crc32","crc32."),("sync/atomic","atomic.")]:
            if tok in src: imps.append(pkg)
        im="".join('\t"%s"\n'%x for x in imps)
        if "gj." in src: im+='\n\tgj "github.com/bserdar/gojsonpath"\n'
        if im: src=src.replace("package main\n\n","package main\n\nimport (\n"+im+")\n\n",1)
        open(d+"/main.go","w").write(src)
        open(d+"/demo.sh","w").write(demosh.replace(" RACEFLAG"," -race" if s["race"] else ""))
        os.chmod(d+"/demo.sh",0o755)
        open(d+"/patch.diff","w").write(diff)
        json.dump({"property":s["prop"],"needs":s["needs"],"what_it_breaks":s["breaks"]},open(d+"/meta.json","w"),indent=1)
        run(["gofmt","-w",d+"/main.go"],"/")
        c,o=run("go vet . ./parser 2>&1; go build ./... && go test ./... 2>&1",wt)
        if c: print(id,"TESTS FAIL",o[-600:]); bad+=1; shutil.rmtree(d); continue
        c,o=run([d+"/demo.sh"],"/repo")
        if c: print(id,"DEMO FAILS ON UNCHANGED",c,o[-400:]); bad+=1; shutil.rmtree(d); continue
        c,o=run([d+"/demo.sh"],wt)
        if c in (0,2,-1): print(id,"DEMO DOES NOT FAIL",c,o[-400:]); bad+=1; shutil.rmtree(d); continue
        # removes or changes a line of the original?
        n=0
        cur=None; ln=0
        for l in diff.splitlines():
            if l.startswith("--- "): cur=l[6:]; continue
            if l.startswith("+++ "): continue
            if l.startswith("@@"): ln=int(l.split()[1][1:].split(",")[0]); continue
            if l.startswith("-"):
                if l[1:].strip() and orig_line(cur,ln): n+=1
                ln+=1
            elif l.startswith(" "): ln+=1
        print(id,s["prop"],"ok",o.strip().splitlines()[-1][:150] if o.strip() else "", "" if n else "NO LINE CHANGED")
    shutil.rmtree("/tmp/seedwt",ignore_errors=True)
    print("bad",bad)
main()
