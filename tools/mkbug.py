#!/usr/bin/env python3
"""tools/mkbug.py ID PROPERTY: makes /verif/seeded/ID/patch.diff from the edits in
/repo's working tree (which is then restored); meta.json's texts come from stdin
(first line: needs; second: what_it_breaks)."""
import sys, subprocess, os, json
i,p=sys.argv[1:3]
needs,what=[l.strip() for l in sys.stdin.read().strip().split('\n',1)]
d='/verif/seeded/'+i; os.makedirs(d, exist_ok=True)
diff=subprocess.run(['git','-C','/repo','diff'],capture_output=True,text=True,check=True).stdout
assert diff
open(d+'/patch.diff','w').write(diff)
json.dump({'property':p,'needs':needs,'what_it_breaks':' '.join(what.split())}, open(d+'/meta.json','w'), indent=1)
subprocess.run(['git','-C','/repo','checkout','-q','--','.'],check=True)
# only original lines may be removed
for f in {l[6:] for l in diff.split('\n') if l.startswith('--- a/')}: pass
f=None
import re
for l in diff.split('\n'):
    if l.startswith('--- a/'): f=l[6:]; bl=subprocess.run(['git','-C','/repo','blame','-s',f],capture_output=True,text=True).stdout.split('\n')
    m=re.match(r'@@ -(\d+)',l)
    if m: n=int(m[1]); continue
    if l.startswith('---') or l.startswith('+++'): continue
    if l.startswith('-'):
        if not bl[n-1].startswith('^cb31983') and not bl[n-1].startswith('cb31983'): print('NOT ORIGINAL:', bl[n-1])
        n+=1
    elif l.startswith(' '): n+=1
