#!/usr/bin/env python3
"""known.py <property> <commit> <what>: adds a fixed entry to known-findings.json"""
import json,sys
k=json.load(open('/verif/known-findings.json'))
p,c,w=sys.argv[1:4]
k['findings'].append({"property":p,"sig":"","status":"fixed","what":f"fixed: property={p} {c} {w}"})
open('/verif/known-findings.json','w').write('{\n "findings": [\n'+',\n'.join('  '+json.dumps(f) for f in k['findings'])+'\n ]\n}\n')
