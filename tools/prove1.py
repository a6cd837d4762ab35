import sys
sys.path.insert(0,'/verif'); 
root=sys.argv[1] if len(sys.argv)>1 else '/repo'
sys.path.insert(0,root)
sys._cheetah_namemapper_pure=True
import warnings; warnings.simplefilter('ignore')
from pyvc.runner import verify
from pyvc.interp import SourceIndex
import importlib
m=importlib.import_module('contracts.'+sys.argv[2])
src=SourceIndex(root)
only=sys.argv[3:] 
for U in m.UNITS:
    u=U() if isinstance(U,type) else U
    if only and not any(o in u.name for o in only): continue
    import tempfile; u.scratch=tempfile.mkdtemp()
    r=verify(u,src)
    print(u.name,r.status,r.why[-1500:],'obl',r.discharged,'/',r.obligations,'inst',r.instances,'paths',r.paths,'%.1fs'%r.wall_s,r.backends)
    for x in r.refuted: print('   REFUTED',x['obligation'],x['notes']); print('      '+x['model'][:800].replace('\n','\n      '))
    if r.unproved: print('   UNPROVED',r.unproved)
