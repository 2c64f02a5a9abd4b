#!/usr/bin/env python3
# Says which planted bugs change lines that the original repository did not have.
import os, subprocess
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
base=subprocess.check_output("git -C /repo log --format=%H --reverse".split()).decode().split()
base=[c for c in base if True]
import sys
b=sys.argv[1] if len(sys.argv)>1 else "04b3d3b"
for s in sorted(os.listdir(V+"/seeded")):
    f=None; bad=[]
    for l in open(f"{V}/seeded/{s}/patch.diff"):
        if l.startswith("--- a/"): f=l[6:].strip(); t=subprocess.check_output(["git","-C","/repo","show",f"{b}:{f}"]).decode().split("\n")
        elif l.startswith("-") and not l.startswith("---"):
            if l[1:].rstrip("\n") not in t: bad.append(l.strip())
    print(s, "OK" if not bad else bad)
