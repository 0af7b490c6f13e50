#!/usr/bin/env python3
"""mutate.py WORKDIR START STEP: development only. Copies /repo and /verif/sim below WORKDIR, then for
every STEPth small mutation (from START) of the sources runs the quick checks with reduced budgets until one
reports a violation. Survivors go to WORKDIR/survivors.txt, everything to WORKDIR/log.txt."""
import sys,os,re,subprocess,shutil,time,random
W=sys.argv[1]; start=int(sys.argv[2]); step=int(sys.argv[3]); only=sys.argv[4] if len(sys.argv)>4 else ""
R=W+"/repo"; V=W+"/verif"
FILES=["rust-src/src/gridstore/builder.rs","rust-src/src/gridstore/store.rs","rust-src/src/gridstore/coalesce.rs","rust-src/src/gridstore/stackable.rs","rust-src/src/gridstore/common.rs","rust-src/src/gridstore/gridstore_format.rs","rust-src/src/gridstore/spatial.rs","native/src/gridstore.rs","native/src/fuzzy_phrase.rs"]
ORDER={"builder":["C01","C02","C03","C10","C09","C15"],"store":["C01","C04","C06","C03","C09","C05"],"coalesce":["C05","C06","C07","C08","C11","C04","C12"],
"stackable":["C07","C08","C11","C13"],"common":["C06","C05","C04","C01","C08","C13"],"gridstore_format":["C01","C02","C03","C04"],"spatial":["C04","C06","C05"],"native":["C15","C16"]}
ALL=["C%02d"%i for i in (1,2,3,4,5,6,7,8,9,10,11,12,13,15,16)]
CASES={"C01":8000,"C07":15000,"C11":6000,"C10":12000}
def code_lines(path):
    out=[];skip=None
    L=open(path).read().split("\n")
    depth=0
    i=0
    while i<len(L):
        l=L[i]
        if "#[cfg(test)]" in l or "#[test]" in l:
            # skip the next item
            j=i+1; d=0; opened=False
            while j<len(L):
                d+=L[j].count("{")-L[j].count("}")
                if "{" in L[j]: opened=True
                if (opened and d<=0) or (not opened and L[j].rstrip().endswith(";")): break
                j+=1
            i=j+1; continue
        out.append(i); i+=1
    return L,out
def mutations():
    muts=[]
    for f in FILES:
        L,idx=code_lines(f"{W}/base/{f}")
        for i in idx:
            l=L[i]; c=l.strip()
            if not c or c.startswith("//") or c.startswith("#") or c.startswith("use ") or c.startswith("pub use") or c.startswith("pub fn") or c.startswith("fn ") or "debug_assert" in c: continue
            code=l.split("//")[0]
            def add(a,b,new,kind): muts.append((f,i,l[:a]+new+l[b:],kind))
            for m in re.finditer(r"(?<![<>=\-!&|])(<=|>=|==|!=)(?!=)",code):
                new={"<=":"<",">=":">","==":"!=","!=":"=="}[m.group()]
                add(m.start(),m.end(),new,"cmp")
            for m in re.finditer(r" (<|>) ",code):
                if "->" in code or "=>" in code and m.group(1)==">" : pass
                add(m.start(),m.end()," "+m.group(1)+"= ","cmp")
            for m in re.finditer(r" (\+|-|\*|/) ",code):
                if code.count("+ '") or "impl" in code or "dyn" in code or "where" in code: continue
                add(m.start(),m.end()," "+{"+":"-","-":"+","*":"/","/":"*"}[m.group(1)]+" ","arith")
            for m in re.finditer(r" (\+=|-=|\|=|&=) ",code):
                add(m.start(),m.end()," "+{"+=":"-=","-=":"+=","|=":"&=","&=":"|="}[m.group(1)]+" ","assign")
            for m in re.finditer(r" (&&|\|\|) ",code):
                add(m.start(),m.end()," "+{"&&":"||","||":"&&"}[m.group(1)]+" ","bool")
            for m in re.finditer(r"\b(true|false)\b",code):
                add(m.start(),m.end(),{"true":"false","false":"true"}[m.group()],"lit")
            for m in re.finditer(r"(?<![\w.\"'])(\d+)(?=(u8|u16|u32|u64|u128|usize)?\b)(?![\w]*[\"'])(?!\.\d)",code):
                n=int(m.group(1)); add(m.start(),m.start()+len(m.group(1)),str(n+1),"num+")
                if n>0: add(m.start(),m.start()+len(m.group(1)),str(n-1),"num-")
            for m in re.finditer(r"(?<![\w])(\d+\.\d+)",code):
                add(m.start(),m.end(),str(float(m.group())+0.25),"float")
            for m in re.finditer(r"\b(min|max)\(",code):
                add(m.start(),m.end(),{"min":"max","max":"min"}[m.group(1)]+"(","minmax")
            for m in re.finditer(r"\b(any|all)\(",code):
                add(m.start(),m.end(),{"any":"all","all":"any"}[m.group(1)]+"(","anyall")
            for m in re.finditer(r"if (?!let)(.*) \{$",code):
                add(m.start(1),m.end(1),"!("+m.group(1)+")","not")
            for m in re.finditer(r"\.\.=",code): add(m.start(),m.end(),"..","range")
            if c.endswith(";") and not c.startswith(("let ","return","pub ","const ","static ","}","type ","mod ",")","]")) and c.count("(")==c.count(")") and c.count("{")==c.count("}"):
                add(len(l)-len(l.lstrip()),len(l),"{}","del")
            if "?;" in code and c.startswith("self"):
                pass
            if c in("continue;","break;"): add(len(l)-len(l.lstrip()),len(l),"{}","delflow") if False else None
            m=re.search(r"\bReverse\(",code)
            if m: add(m.start(),m.end(),"(","rev")
    seen=set();out=[]
    for x in muts:
        if x not in seen: seen.add(x); out.append(x)
    random.Random(7).shuffle(out)
    return out
def sh(*a,**k): return subprocess.run(a,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,**k)
def setup():
    if os.path.exists(R): return
    os.makedirs(W,exist_ok=True)
    sh("git","clone","-q","/repo",R); sh("git","clone","-q","/repo",W+"/base")
    os.makedirs(V)
    sh("rsync","-a","--exclude","target","/verif/sim",V) if shutil.which("rsync") else shutil.copytree("/verif/sim",V+"/sim",ignore=shutil.ignore_patterns("target"))
    for f in ["check.sh","known_findings.txt","properties.jsonl"]: shutil.copy("/verif/"+f,V)
    for c in ["carmen-core","node-core"]:
        p=f"{V}/sim/{c}/Cargo.toml"; s=open(p).read().replace("/repo/",R+"/"); open(p,"w").write(s)
    p=V+"/check.sh"; s=open(p).read().replace("cd /repo",f"cd {R}"); open(p,"w").write(s)
def main():
    setup(); M=mutations()
    if start<0: print(len(M)); return
    env=dict(os.environ,CARMEN_MINIMISE_S="0",CARMEN_JOBS=os.environ.get("CARMEN_JOBS","8"))
    for k in range(start,len(M),step):
        f,i,new,kind=M[k]
        if only and only not in f: continue
        L=open(f"{W}/base/{f}").read().split("\n"); old=L[i]; L[i]=new
        open(f"{R}/{f}","w").write("\n".join(L))
        t=time.time()
        key="native" if f.startswith("native") else os.path.basename(f)[:-3]
        order=ORDER[key]
        res="SURVIVED"
        for p in order:
            e=dict(env,CARMEN_CASES=str(CASES.get(p,20000)))
            r=sh("timeout","-k","5","400",V+"/check.sh",p,"quick",env=e)
            if r.returncode==1: res="killed "+p; break
            if r.returncode!=0:
                res=("nobuild" if "does not build" in r.stdout else f"rc={r.returncode} {p}"); break
        shutil.copy(f"{W}/base/{f}",f"{R}/{f}")
        line=f"{k} {f}:{i+1} [{kind}] {res} {time.time()-t:.0f}s\n    - {old.strip()}\n    + {new.strip()}\n"
        open(W+"/log.txt","a").write(line)
        if not res.startswith("killed") and res!="nobuild": open(W+"/survivors.txt","a").write(line)
main()
