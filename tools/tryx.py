import sys; sys.path.insert(0,'/verif')
import subprocess,os
from engine import extract
R=extract.load_specs('/verif/specs')
if os.environ.get('FRESH',''): open('/tmp/v/exp.rs','w').write(extract.expand('/repo','/tmp/exp'))
src=open('/tmp/v/exp.rs').read()
X=extract.Extractor(src,R)
t=X.run()
open('/tmp/v/out.rs','w').write(t)
if X.lost: print('LOST',X.lost)
un=[k for k in list(R.fns)+list(R.items) if k not in R.used and not (R.items.get(k,{}).get('drop'))]
if un: print('UNUSED',un)
