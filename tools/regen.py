#!/usr/bin/env python3
"""rewrites the generated parts of DESIGN.md"""
import subprocess,os,sys
H=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s=open(H+'/DESIGN.md').read()
run=lambda t: subprocess.run([sys.executable,'-B',H+'/tools/'+t],capture_output=True,text=True,check=True).stdout
def put(s,start,end,o):
    a=s.index(start)+len(start); b=s.index(end,a) if end else len(s)
    return s[:a]+o+s[b:]
s=put(s,'## Properties\n\n','## Scope decisions',run('design_props.py'))
s=put(s,'<!-- seeds -->\n','<!-- /seeds -->',run('design_seeds.py'))
open(H+'/DESIGN.md','w').write(s)
