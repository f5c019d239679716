import sys,json
sys.path.insert(0,__import__('os').path.dirname(__import__('os').path.abspath(__file__)))
import registry
# ad-hoc: adhoc.py harness name=val... 
h=sys.argv[1]; cfg={}; flags=[]
for a in sys.argv[2:]:
    k,v=a.split('=',1)
    if k=='defs': continue
    cfg[k]=int(v,0)
registry.PROPS['X']=dict(bounds='',outside='',assumptions=[],runs=[dict(name='x',harness=h,cfg=cfg,covers=[],spec=registry.UT if h in('umap',) else (registry.SPECS.get(h,{}) if hasattr(registry,'SPECS') else {}))])
import check
sys.argv=['check','X','--keep'] 
check.main()
