"""Which planted changes remove or replace at least one line of the original repository?"""
import subprocess, os, re
R="/verif/seeded"; BASE="ba196fb"
def sh(*a): return subprocess.run(a,capture_output=True,text=True).stdout
bl={}
def blame(f):
    if f not in bl:
        bl[f]=[l.split()[0] for l in sh("git","-C","/repo","blame","-l","-s",f"{BASE}^!..HEAD" if 0 else "HEAD","--",f).splitlines()]
    return bl[f]
base=set(sh("git","-C","/repo","rev-list",BASE).split())
for d in sorted(os.listdir(R)):
    t=open(f"{R}/{d}/patch.diff").read().splitlines(); f=None; orig=mine=0; n=0
    for i,l in enumerate(t):
        if l.startswith("--- a/"): f=l[6:]
        elif m:=re.match(r"@@ -(\d+)",l): n=int(m[1])
        elif f and l.startswith("-") and not l.startswith("---"):
            c=blame(f)[n-1].lstrip("^"); 
            if any(b.startswith(c) for b in base): orig+=1
            else: mine+=1
            n+=1
        elif f and l.startswith(" "): n+=1
    if not orig or mine: print(d,"orig",orig,"mine",mine)
