#!/usr/bin/env python3
"""Regenerates /verif/MANIFEST.json from properties.jsonl and the notes below."""
import json, subprocess
props=[json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
D={} # id -> (technique, level_note)
def c(i,t,n): D[i]=(t,n)
ALG="proptest-generated inputs against integer reference arithmetic"
c("T01",ALG,"Every generated (width, message, perturbation, operand) tuple is judged by exact integer arithmetic; search, not proof. Trusts the reference in t_math.rs.")
c("T02",ALG,"Digits judged by range, count and exact recomposition for generated words, bases and counts at every dispatch level; search, not proof.")
c("T03",ALG+" (schoolbook ring, Fourier error bound)","Coefficient-exact against schoolbook; Fourier products exact where the error bound is below 1/4, else within it. Search, not proof.")
c("T04","differential fuzzing of kernels across scalar/AVX2/AVX-512 dispatch with guarded buffers","Levels the CPU lacks are not exercised; writes outside slices are seen through sentinels, reads outside only if they fault or change results.")
c("T15","stateful model-based generation of allocation histories","Generated histories per thread against a contents/disjointness model; memory damage that ends the process is a violation with the case traced.")
exec(open("/verif/tools/manifest_more.py").read())
NA={}
hooks=subprocess.run(["git","-C","/repo","log","--format=%H %s"],capture_output=True,text=True).stdout.splitlines()
hooks=[l.split()[0] for l in hooks if l.split(" ",1)[1].startswith("hook:")]
old=json.load(open("/verif/MANIFEST.json")) if __import__("os").path.exists("/verif/MANIFEST.json") else {}
if not hooks: hooks=old.get("hooks",{}).get("source_commits",[])
m={"version":1,"setup_cmd":"./setup.sh",
 "hooks":{"guard":"spf_verif (rustc --cfg)","enable":"harness/.cargo/config.toml passes --cfg spf_verif in rustflags to every build made from /verif/harness","source_commits":hooks},
 "checks":[{"property":i,"quick_cmd":f"./check.sh {i}","thorough_cmd":f"VERIF_TIER=thorough ./check.sh {i}","technique":D[i][0],"level":"exploration","level_note":D[i][1]} for i in props if i in D],
 "not_applicable":[{"property":i,"reason":NA.get(i,"check not built yet")} for i in props if i not in D],
 "notes":"See DESIGN.md. Replay a finding with ./check.sh ID --replay FILE."}
json.dump(m,open("/verif/MANIFEST.json","w"),indent=1)
print(len(m["checks"]),"checks")
