#!/usr/bin/env python3
"""Lists, per planted bug, how many removed lines are the original repository's."""
import os,re,subprocess
BASE='3d58870'
for id in sorted(os.listdir('/verif/seeded')):
    f=None; res=[]
    blame={}
    for l in open('/verif/seeded/%s/patch.diff'%id):
        if l.startswith('--- a/'): f=l[6:].strip()
        m=re.match(r'@@ -(\d+)',l)
        if m: n=int(m.group(1)); continue
        if l.startswith(('---','+++','diff','index')): continue
        if l.startswith('-') or l.startswith(' '):
            if f not in blame:
                o=subprocess.run(['git','-C','/repo','blame','-s','-l',BASE+'..HEAD','--',f],capture_output=True,text=True).stdout.split('\n')
                blame[f]=['orig' if x.startswith('^') else 'mine' for x in o]
            if l.startswith('-'): res.append(blame[f][n-1])
            n+=1
    print(id,'orig',res.count('orig'),'mine',res.count('mine'))
