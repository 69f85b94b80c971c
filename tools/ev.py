#!/usr/bin/env python3
"""Prints the coverage summary of evidence files: tools/ev.py T08 ..."""
import json,sys
for i in sys.argv[1:]:
    d=json.load(open(f'/verif/evidence/{i}.json'))
    def walk(o,p=''):
        if isinstance(o,dict):
            for k,v in o.items():
                if k=='samples': continue
                walk(v,p+'/'+k)
        elif isinstance(o,list):
            for j,v in enumerate(o[:30]): walk(v,p+f'[{j}]')
        else: print(p,str(o)[:150])
    walk(d)
