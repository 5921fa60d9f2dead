bash /tmp/v/run.sh "$@" > /tmp/v/log.txt 2>&1
python3 - <<'P'
import re,os
t=open('/tmp/v/log.txt').read()
bl=re.split(r'\n(?=error|note|warning|LOST|UNUSED|verification)',t)
src=open('/tmp/v/out.rs').read().split('\n')
out=[]
for b in bl:
    if not re.match(r'error|LOST|UNUSED',b): continue
    m=re.search(r'--> out.rs:(\d+)',b)
    ls=[int(x) for x in re.findall(r'^\s*(\d+) [|/]',b,re.M)]
    if m: ls.append(int(m.group(1)))
    # canary?
    can=False
    if m:
        i=min(ls)-1
        for j in range(i,max(0,i-6),-1):
            if 'vx_canary' in src[j]: can=True
    if can: continue
    out.append('\n'.join(l[:240] for l in b.split('\n')[:14]))
n=int(os.environ.get('N','60'))
print('\n'.join('\n'.join(out).split('\n')[:n]))
P
grep "results::" /tmp/v/log.txt
