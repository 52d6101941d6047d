VERIF_DEBUG=1 python3 harness/check.py $1 $2 | cut -c1-500 | python3 -c "
import sys,re
t=sys.stdin.read()
t=re.sub(r'\[\s*(\d+),\s*(\d+),\s*(\d+)\s*\]',r'[\1,\2,\3]',t)
print(t)"
python3 -c "
import json;e=json.load(open('evidence/$1.json'))['coverage'];print(e['phase_s'],[(m['module'],m['distinct'],m['actions']) for m in e['design_models']])"
