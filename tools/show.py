import json,sys
sys.path.insert(0,'/verif')
from sim import gdoc
d=json.load(open(sys.argv[1]));s=d['scenario']
print(json.dumps({k:v for k,v in s.items() if k!='doc'})); print(d['kind'],d['message'][:800],'exact',d.get('replay_exact'), 'prelude',len(d.get('prelude',[])))
if 'doc' in s:
    try: print(gdoc.text(s['doc']))
    except Exception as e: print(json.dumps(s['doc']))
