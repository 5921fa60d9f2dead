import sys; sys.path.insert(0,'/verif')
from engine import extract
R=extract.load_specs('/verif/specs')
X=extract.Extractor(open('/tmp/v/exp.rs').read(),R); X.run()
print(len(X.fn_keys),'fns; uncontracted',len(X.uncontracted))
inh=[k for k in X.uncontracted if k in X.inherits and R.fns.get(X.inherits[k],{}).get('spec')]
print('inherit',len(inh))
for k in X.uncontracted:
    if k not in inh: print(k)
print('EXT',X.externals)
