#!/usr/bin/env python3
# Writes known-findings.txt: "fixed:" lines from /repo's fix commits, "known:" lines from tools/known.txt
import json,subprocess,os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M=json.load(open(V+'/tools/fixes.json'))
out=['# Genuine defects found by the checks. "fixed:" entries were repaired in /repo and suppress nothing;','# "known:" entries are reported as KNOWN-FINDING and do not fail the check.']
for l in subprocess.check_output(['git','-C','/repo','log','--reverse','--format=%h %s'],text=True).splitlines():
    h,s=l.split(' ',1)
    if s.startswith('fix: '):
        p,w=M[s[5:]]; out.append(f'fixed: property={p} {h} {w}')
k=V+'/tools/known.txt'
if os.path.exists(k): out+=[l.rstrip() for l in open(k) if l.strip()]
open(V+'/known-findings.txt','w').write('\n'.join(out)+'\n')
