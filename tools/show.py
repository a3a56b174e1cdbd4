import json,sys
r=json.load(open(sys.argv[1]))
print({k:v for k,v in r.items() if k not in('mismatches','samples','errors')}); print('mismatches',len(r['mismatches']),'errors',len(r['errors']))
n=int(sys.argv[2]) if len(sys.argv)>2 else 4
from collections import Counter
print(Counter(d['at'] for m in r['mismatches'] for d in m['differences'][:1]).most_common(12))
for m in r['mismatches'][:n]: print(json.dumps(m)[:1800])
for m in r['errors'][:3]: print(m)
