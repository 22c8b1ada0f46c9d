#!/usr/bin/env python3
# Rewrites the generated part of DESIGN.md: what each harness covers, from the harnesses' own comments.
import re,glob,os,json
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)),".."))
docs={}
for f in sorted(glob.glob("harness/*/*.go")):
    t=open(f).read()
    for m in re.finditer(r"((?:^//.*\n)+)^func (V[HK]_(C\d\d)_\w+)\(",t,re.M):
        text=" ".join(l[2:].strip() for l in m[1].splitlines() if not l.startswith("//vf:"))
        text=re.sub(r"^V[HK]_C\d\d_\w+:?\s*","",text).strip()
        dirs=" ".join(re.findall(r"^//vf:(.*)$",m[1],re.M))
        docs.setdefault(m[3],[]).append((os.path.dirname(f)[8:]+"."+m[2],text,dirs))
out=[]
for l in open("properties.jsonl"):
    p=json.loads(l)
    out.append(f"### {p['id']} {p['title']}\n")
    for n,t,d in docs.get(p["id"],[]):
        out.append(f"- `{n}`: {t}"+(f" (executor limits: {d})" if d else ""))
    out.append("")
s=open("DESIGN.md").read()
a,b="<!-- generated by tools/mkdesign.py -->","<!-- end of the generated part -->"
i,j=s.index(a)+len(a),s.index(b)
s=s[:i]+"\n"+"\n".join(out)+s[j:]
caught=json.load(open("tools/caught.json")) # from runs of the checks against the planted bugs
tab=["| change | what it needs | caught by |","|---|---|---|"]
for f in sorted(glob.glob("seeded/*/meta.json")):
    k=f.split("/")[1]; m=json.load(open(f))
    tab.append("| "+k+" | "+m["needs"].replace("|","/")+" | "+(", ".join("`"+x+"`" for x in caught.get(k,[])) or "the check of "+m["property"])+" |")
a,b="<!-- planted -->","<!-- end of planted -->"
i,j=s.index(a)+len(a),s.index(b)
open("DESIGN.md","w").write(s[:i]+"\n"+"\n".join(tab)+"\n"+s[j:])
