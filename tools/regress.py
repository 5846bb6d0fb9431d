import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open(sys.argv[1]))
st=b['stable']; st=set(st if isinstance(st[0],str) else [x[0] for x in st])
p=set(o['passed']) if not isinstance(o['passed'],dict) else set(o['passed'])
m=sorted(st-p); print('stable',len(st),'missing',len(m),m[:10]); sys.exit(bool(m))
