#!/usr/bin/env python3
# Generates MANIFEST.json from properties.jsonl and the harnesses present under harness/.
import json,re,glob,os
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)),".."))
props=[json.loads(l) for l in open("properties.jsonl")]
have={}
for f in glob.glob("harness/*/*.go"):
    for m in re.finditer(r"^func V[HK]_(C\d\d)_(\w+)\(",open(f).read(),re.M):
        have.setdefault(m[1],[]).append(os.path.dirname(f)[8:]+"."+m[2])
NA={}
LATER="Not encoded yet: no harness for this property exists at this commit."
checks=[];na=[]
for p in props:
    i=p["id"]
    if i in have:
        checks.append(dict(property=i,quick_cmd=f"./check.sh {i} quick",thorough_cmd=f"./check.sh {i} thorough",
          evidence_file=f"evidence/{i}.json",
          technique="symbolic execution of the Go SSA of /repo's current source, z3 (cross-checked with cvc5) decides every branch and assertion, counterexamples replayed natively",
          level="model_checking",
          level_note="Holds for all values within the bounds listed per harness in the evidence file (operation counts, sizes, alphabets); harnesses: "+", ".join(sorted(have[i]))+". Trusts the executor's Go semantics (validated by replaying sampled paths against the compiled code on every run), the models of the file system, mmap, scheduler and hash functions, and the solvers."))
    else:
        na.append(dict(property=i,reason=NA.get(i,LATER)))
json.dump(dict(version=1,setup_cmd="./setup.sh",checks=checks,not_applicable=na,
  notes="No hooks in /repo: harnesses are overlaid at check time. fix: commits in /repo are listed in known-findings.txt."),open("MANIFEST.json","w"),indent=1)
print(len(checks),"claimed;",[x["property"] for x in na],"not")
