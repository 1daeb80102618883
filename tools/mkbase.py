import hashlib, json, subprocess, os
REPO='/repo'; base='a0b5d8a'
out={}
for f in subprocess.run(['git','-C',REPO,'ls-tree','-r','--name-only',base,'k2/csrc','k2/python/csrc','k2/torch/csrc'],capture_output=True,text=True).stdout.split():
    if f.endswith(('.cu','.h','.cc','.in','.txt')):
        out[f]=hashlib.sha256(subprocess.run(['git','-C',REPO,'show',f'{base}:{f}'],capture_output=True).stdout).hexdigest()
json.dump(out,open('/verif/base_sources.json','w'),indent=0,sort_keys=True)
print(len(out))
