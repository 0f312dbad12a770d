#!/usr/bin/env python3
"""mkpatch.py ID < spec: spec = lines FILE / <<<< / old / ==== / new / >>>> (repeated); writes seeded/ID/patch.diff"""
import sys, re, subprocess, os
R=os.environ.get('VR','/repo')
d=os.environ.get('VV','/verif')+f'/seeded/{sys.argv[1]}'; os.makedirs(d,exist_ok=True)
t=sys.stdin.read()
assert subprocess.run(['git','-C',R,'diff','--quiet']).returncode==0
for m in re.finditer(r'^FILE (\S+)(?: (\d+))?\n<<<<\n(.*?)\n====\n(.*?)\n?>>>>$',t,re.S|re.M):
    p=R+'/'+m[1]; s=open(p).read(); n=s.count(m[3]); k=int(m[2] or 1)
    assert n>=k and (n==1 or m[2]), (m[1],n,m[3][:60])
    i=-1
    for _ in range(k): i=s.index(m[3],i+1)
    s=s[:i]+m[4]+s[i+len(m[3]):]
    open(p,'w').write(s)
o=subprocess.run(['git','-C',R,'diff'],capture_output=True,text=True).stdout
open(d+'/patch.diff','w').write(o)
subprocess.run(['git','-C',R,'checkout','-q','--','.'])
print(len(o.splitlines()),'lines')
