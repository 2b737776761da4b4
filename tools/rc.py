import sys,time,importlib; sys.path.insert(0,'/verif')
from qmv import core
from qmv.contracts import base
mod=sys.argv[1]; pat=sys.argv[2] if len(sys.argv)>2 and not sys.argv[2].startswith("-") else ""
importlib.import_module('qmv.contracts.'+mod)
verbose='-v' in sys.argv
for c in base.REG:
    if not c.fn.__module__.endswith('.'+mod): continue
    if pat and pat not in c.name and pat!='-v': continue
    o=base.run_contract(c)
    bad=[x for x in o.obligations if x.status!='proved']
    print(f"== {c.name}: paths={o.paths} obl={len(o.obligations)} bad={len(bad)} vac={o.vacuous} {o.secs:.1f}s err={o.error}")
    if verbose:
        for x in o.obligations: print('   ',x.status,x.backend,round(x.secs,2),x.name)
    for x in bad[:3]: print('  !!',x.status,x.name,x.where,x.detail[:int(sys.argv[sys.argv.index('-d')+1]) if '-d' in sys.argv else 1200])
