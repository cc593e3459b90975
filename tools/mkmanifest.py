# writes /verif/MANIFEST.json from budget.json and the table below; run with python3-vt
import json
bud=json.load(open('/verif/budget.json'))
NOTE={
}
NA={
 "C20":"Pure function of its arguments (constant tables): no schedule, clock, I/O, fault or history for the result to depend on. Concurrent first use of the tables is covered by C06.",
 "C21":"Whether an elemental matrix equals the integral is a pure function of space, operator, tensor and cell; no nondeterminism or fault is involved. Its dependence on memory contents, workspace, faults and concurrency is covered by C06 to C09.",
 "C22":"Pure function of the composition of maps and the selection; nothing for a scheduler or fault injector to decide. Concurrent traversal and failure atomicity of map construction are covered by C06 and C09.",
 "C23":"Pure function of space, function and cell. Dirty workspaces, concurrent use and throwing functions are covered by C06 to C09.",
 "C24":"Pure function of expression and argument, header-only value types without shared state, allocation failures aside.",
 "C25":"Pure numerical kernels; no schedule, clock, I/O or fault to simulate."
}
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
checks=[];na=[]
for p in props:
    i=p["id"]
    if i in bud:
        checks.append(dict(property=i,quick_cmd="python3 check.py %s"%i,thorough_cmd="python3 check.py %s --thorough"%i,
            technique="deterministic simulation with fault injection: seeded search over histories, schedules and faults of the real code, reference model and race/heap checker as oracle",
            level="exploration",level_note=bud[i].get("note","Sampled, not exhaustive: a clean run is evidence for the explored seeds only. Trusts the simulator runtime in /verif/engine.")))
    else:
        na.append(dict(property=i,reason=NA.get(i,"Check not built yet.")))
m=dict(version=1,setup_cmd="python3 build.py",hooks=dict(guard="none",enable="no hooks in /repo: the seams are compiler instrumentation and link-time interposition, see DESIGN.md"),checks=checks,not_applicable=na)
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
import sys
sys.path.insert(0,"/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import jsonschema
jsonschema.validate(m,json.load(open('/root/.vp/MANIFEST.schema.json')))
