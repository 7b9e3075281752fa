#!/usr/bin/env python3
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.dirname(here)
sys.path.insert(0, here)
from props import PROPS
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
try:
    from jobs import CHECKS, NOT_APPLICABLE
except ImportError:
    CHECKS, NOT_APPLICABLE = {}, {}
checks = []
na = [dict(property=k, reason=v) for k, v in NOT_APPLICABLE.items()]
for p in PROPS:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        checks.append(dict(property=i,
            quick_cmd="python3 vp/check.py %s quick" % i,
            thorough_cmd="python3 vp/check.py %s thorough" % i,
            evidence_file="evidence/%s.json" % i,
            technique=c.get("technique", "symbolic execution of the LLVM IR of /repo + z3 (SMT), bounded, native replay"),
            level="model_checking",
            level_note=c["note"]))
    elif i not in NOT_APPLICABLE:
        na.append(dict(property=i, reason="check not built yet"))
m = dict(version=1, setup_cmd="bash vp/setup.sh", checks=checks, not_applicable=na,
         notes="Bounded symbolic execution of the compiled IR of /repo's current sources; see DESIGN.md.")
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "n/a")
# DESIGN.md
from design import ORACLE
kf = json.load(open(os.path.join(root, 'known_findings.json')))
fi = '\n'.join('| %s | %s | %s | %s |' % (k['id'], k['property'], k['commit'], k['what']) for k in kf)
notes = json.load(open(os.path.join(here, 'seednotes.json')))
sd = ['| planted bug | property | caught by the quick check | needs |', '|---|---|---|---|']
for d in sorted(os.listdir(os.path.join(root, 'seeded'))) if os.path.isdir(os.path.join(root, 'seeded')) else []:
    mt = json.load(open(os.path.join(root, 'seeded', d, 'meta.json')))
    sd.append('| %s | %s | %s | %s |' % (d, mt['property'], notes.get(d, 'not run yet'), mt['needs'].replace('|', '/')))
pr = []
for p in PROPS:
    c = CHECKS.get(p['id'])
    if not c: pr.append('### %s %s\nNot applicable: %s\n' % (p['id'], p['title'], NOT_APPLICABLE.get(p['id'], ''))); continue
    q = sum(j.get('tier', 'q') == 'q' for j in c['jobs'])
    pr.append('### %s %s\n*Decided:* %s\n*Oracle:* %s\n*Bounds:* %s (%d jobs quick, %d thorough; `harness/%s`).\n*Outside:* %s.\n*Beyond tests:* %s\n' % (p['id'], p['title'], c['note'], ORACLE[p['id']], c['bounds'], q, len(c['jobs']), c['harness'], c['outside'], p['why_tests_cant']))
if os.path.isdir(os.path.join(root, 'seeded')):
    t = open(os.path.join(here, 'design_head.md')).read().replace('@FINDINGS@', fi).replace('@SEEDS@', '\n'.join(sd)).replace('@PROPS@', '\n'.join(pr))
    open(os.path.join(root, 'DESIGN.md'), 'w').write(t)
