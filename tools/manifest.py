"""Writes MANIFEST.json: run after properties.jsonl or the list below changes."""
import json,os
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCHED="what it says about schedules holds for those generated; "
C={}
def c(id,technique,note): C[id]=(technique,note)
exec(open(os.path.join(here,"tools","checks.py")).read())
props=[json.loads(l) for l in open(os.path.join(here,"properties.jsonl"))]
NA={}
checks=[]; na=[]
# The list of run.sh: the rest of the Rust checks are guided by coverage in the thorough tier.
UNGUIDED="C18 C22 C25 C26 C27 C29 C38 C39 C41 C32 C33 C34 C35 C36 C37 C42".split()
GUIDED="; thorough: also coverage-guided search over the same cases"
for p in props:
    i=p["id"]
    if i in C:
        checks.append(dict(property=i,quick_cmd=f"./run.sh {i}",thorough_cmd=f"VERIF_TIER=thorough ./run.sh {i}",
            technique=C[i][0]+("" if i in UNGUIDED else GUIDED),level="exploration",level_note=C[i][1]))
    else:
        na.append(dict(property=i,reason=NA.get(i,"no check has been built for it")))
m=dict(version=1,setup_cmd="./run.sh --build",
 hooks=dict(guard="--cfg vp_hooks",enable='RUSTFLAGS="--cfg vp_hooks" (set by run.sh)',source_commits=["c72ef9d90fe7a7ec00b855db012249835749b31c", "01007c21e21413d24eb9b3a9f9cd11cd46a6d340", "759c8624629e1ce196a4d15521297bbe1c2b496c", "f537b941c28c709e06c43b440ec3ece50cf69151"]),
 checks=checks,not_applicable=na)
json.dump(m,open(os.path.join(here,"MANIFEST.json"),"w"),indent=1)
print(len(checks),"checks",len(na),"not applicable")
