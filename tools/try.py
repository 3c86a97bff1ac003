"""apply one variant of tools/variants to a scratch copy and leave it in /tmp/w/<name>"""
import glob,os,runpy,shutil,sys
H=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for f in glob.glob(H+"/tools/variants/*.py"):
    for n,p,ed,k in runpy.run_path(f)["V"]:
        if n==sys.argv[1]:
            d="/tmp/w/"+n
            shutil.rmtree(d,True); shutil.copytree("/repo/src",d+"/src")
            for path,old,new in ed:
                q=d+"/src/oidcop/"+path; s=open(q).read(); assert old in s; open(q,"w").write(s.replace(old,new,1))
            print(d)
