#!/usr/bin/env python3
# per-entry path and step counts of the last run of a check
import json,sys
d=json.load(open('/verif/evidence/%s.json'%sys.argv[1]))
def walk(o):
    if isinstance(o,list) and o and isinstance(o[0],dict) and 'entry' in o[0] and 'paths' in o[0]: return o
    if isinstance(o,dict):
        for v in o.values():
            r=walk(v)
            if r: return r
for r in sorted(walk(d),key=lambda r:-r['steps'])[:int(sys.argv[2]) if len(sys.argv)>2 else 12]: print(r['entry'],r['paths'],r['checks'],r['checks_solver'],r['steps'])
