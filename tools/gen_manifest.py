#!/usr/bin/env python3
"""writes MANIFEST.json from the list of claimed properties"""
import json,os
R=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RELAX='symbolic execution of the LLVM IR, z3/cvc5 over integer/real arithmetic with rounding-error variables'
POLY='symbolic execution of the LLVM IR, exact polynomials over symbolic dates and sines/cosines, z3 bounds the residual'
T={}
for k in 'C01 C02 C03 C04 C05 C06 D01 D02 T01 T02 A01 A02 K01 K05 E03 N01'.split(): T[k]=RELAX
for k in 'V01 V02 M01 M02 F01 F02 F03 F04 F05 F06 L01 G01 E01 E02 K02 K03 K04 S01 S02 X01 X02'.split(): T[k]=POLY
import sys
sys.path.insert(0,R)
from tools.claims import CLAIMED,NOTES,NA
props=[json.loads(l) for l in open(R+'/properties.jsonl')]
checks=[dict(property=p['id'],quick_cmd='python3-vt check.py %s quick'%p['id'],thorough_cmd='python3-vt check.py %s thorough'%p['id'],
    technique=T[p['id']],level='model_checking',level_note=NOTES.get(p['id'],NOTES['default'])) for p in props if p['id'] in CLAIMED]
na=[dict(property=p['id'],reason=NA.get(p['id'],'check not built yet')) for p in props if p['id'] not in CLAIMED]
json.dump(dict(version=1,setup_cmd='python3-vt -c "import sys; sys.path.insert(0,\'.\'); from vt import build; build.build_ir(); build.build_native()"',checks=checks,not_applicable=na,
  notes='Each check rebuilds LLVM IR and native replay binaries from /repo, executes the real functions symbolically and discharges the property with z3 (cvc5 as second solver).'),open(R+'/MANIFEST.json','w'),indent=1)
