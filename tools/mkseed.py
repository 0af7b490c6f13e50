#!/usr/bin/env python3
"""mkseed.py <file.py>...: each file defines ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)], MAIN; writes seeded/<ID>/."""
import sys,os,subprocess,tempfile,json,shutil,runpy
here=os.path.dirname(os.path.abspath(__file__)); root=os.path.dirname(here)
for f in sys.argv[1:]:
    m=runpy.run_path(f)
    w=tempfile.mkdtemp(prefix="mkseed",dir="/tmp")
    subprocess.check_call(["git","clone","-q","/repo",w+"/r"])
    for ed in m["EDITS"]:
        # (file, old, new[, which of several])
        path,old,new=ed[:3]
        p=f"{w}/r/{path}"; s=open(p).read()
        if len(ed)==4:
            parts=s.split(old); assert len(parts)>ed[3]+1,(f,path,len(parts))
            s=old.join(parts[:ed[3]+1])+new+old.join(parts[ed[3]+1:])
        else:
            assert s.count(old)==1,(f,path,s.count(old),old)
            s=s.replace(old,new)
        open(p,"w").write(s)
    diff=subprocess.check_output(["git","diff"],cwd=w+"/r",text=True)
    shutil.rmtree(w)
    d=f"{root}/seeded/{m['ID']}"
    shutil.rmtree(d,ignore_errors=True); os.makedirs(d+"/demo/src")
    k=here+"/demokit"
    for x in ["Cargo.toml","Cargo.lock","rocksdb","rayon","min-max-heap","morton","static-bushes","carmen-core"]:
        (shutil.copytree if os.path.isdir(f"{k}/{x}") else shutil.copy)(f"{k}/{x}",f"{d}/demo/{x}")
    shutil.copy(k+"/src/kit.rs",d+"/demo/src/kit.rs"); shutil.copy(k+"/demo.sh",d+"/demo.sh")
    if m.get("JS"):
        # the addon itself, over a stand-in for JavaScript
        j=here+"/demokit-js"
        for x in ["neon","neon-serde","owning_ref","fuzzy-phrase"]: shutil.copytree(f"{root}/sim/{x}",f"{d}/demo/{x}")
        for x in ["simrt","node-core"]: shutil.copytree(f"{j}/{x}",f"{d}/demo/{x}")
        for x in ["Cargo.toml","Cargo.lock"]:
            if os.path.exists(f"{j}/{x}"): shutil.copy(f"{j}/{x}",f"{d}/demo/{x}")
        shutil.copy(j+"/demo.sh",d+"/demo.sh"); shutil.copy(j+"/src/page.rs",d+"/demo/src/page.rs")
    head="mod kit;\nmod page;\n#[allow(unused_imports)]\nuse kit::ctl;\nuse page::*;\n" if m.get("JS") else "mod kit;\nuse kit::*;\n"
    open(d+"/demo/src/main.rs","w").write(head+m["MAIN"].lstrip("\n"))
    open(d+"/patch.diff","w").write(diff)
    json.dump(dict(property=m["PROPERTY"],needs=m["NEEDS"],what_it_breaks=m["BREAKS"]),open(d+"/meta.json","w"),indent=1)
    print(m["ID"],len(diff.splitlines()))
