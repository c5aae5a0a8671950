#!/usr/bin/env python3
# writes MANIFEST.json from properties.jsonl and the harnesses present
import json,os,glob
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(V+'/properties.jsonl')]
NA={}
if os.path.exists(V+'/tools/not_applicable.json'): NA=json.load(open(V+'/tools/not_applicable.json'))
checks=[];na=[]
for p in props:
    i=p['id']
    if i in NA: na.append({'property':i,'reason':NA[i]}); continue
    if not glob.glob(V+'/harness/'+i+'*.cpp'): na.append({'property':i,'reason':'no check built yet'}); continue
    checks.append({'property':i,'quick_cmd':'python3 run.py check %s --tier quick'%i,'thorough_cmd':'python3 run.py check %s --tier thorough'%i,'evidence_file':'evidence/%s.json'%i,
      'technique':'symbolic execution of the LLVM IR of the real headers with Z3 (bounded, all paths)','level':'model_checking',
      'level_note':'Exhaustive over every path and every symbolic input within the bounds stated in the harness (// BOUND lines, copied to the evidence): the solver decides each branch and assertion. Trusts the engine (cross-checked by replaying completed paths against a native ASan/UBSan build), clang 18 -O1 IR, Z3 and the engine models of operator new/delete, libstdc++ out-of-line functions and the exception runtime. Nothing is claimed beyond the bounds.'})
json.dump({'version':1,'setup_cmd':'python3 run.py setup','checks':checks,'not_applicable':na,'notes':'No hooks in /repo: the checks compile harness/*.cpp against /repo/include. Known findings and repaired defects: known_findings.jsonl. Counterexample files are replayed with: python3 run.py replay FILE'},open(V+'/MANIFEST.json','w'),indent=1)
print(len(checks),'checks',len(na),'n/a')
