#!/usr/bin/env python3
# Writes /verif/MANIFEST.json from properties.jsonl and the techniques here.
import json,os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REF="differential property-based testing: generated and enumerated inputs against an independent reference model"
T={
"C01":REF,"C02":"metamorphic property-based testing: relation of a year to the next and to 800 years on, enumerated and generated",
"C03":"property-based testing: reference rule plus conservation law over generated spans of years",
"C04":"property-based testing: reference rule plus spacing invariant over generated spans of years",
"C05":"stateful property-based testing: generated switch/query sequences against a reference model",
"C06":REF,"C07":REF,"C08":"stateful property-based testing: generated chains of NextUposatha against a reference calendar",
"C09":REF,"C10":REF,"C11":REF,
"C12":"model-based property-based testing: generated ranges against a reference calendar and an own reading of the data files",
"C13":"metamorphic property-based testing: split, sub-range and timezone relations of generated ranges",
"C14":"differential property-based testing: generated ranges against an own reading of the data files",
"C15":"differential property-based testing against an independent astronomical model (Meeus)",
"C16":"differential property-based testing against an independent astronomical model (Meeus)",
"C17":"differential property-based testing against an independent day count",
"C18":REF+", and metamorphic (two names of one day)","C19":REF+" (independent evaluation of Eade's procedure)",
"C20":"property-based testing: invariants and day-to-day relations of positions",
"C21":"property-based testing: round-trip and algebraic laws over generated angles",
"C22":"exhaustive enumeration and property-based testing against an independent formula","C23":REF,
"C24":"stateful property-based testing: generated file operations against the bytes on disk",
"C25":"stateful property-based testing: generated query sequences against a stateless reference",
"C26":"property-based testing of generated concurrent batches under the race detector against sequential reference answers",
"C27":"stateful property-based testing against a model of the day, and JSON round-trip",
"C28":"property-based testing of generated events against their stated form",
"C29":"end-to-end property-based testing of generated command runs against the reference calendar",
"C30":"enumeration and property-based testing of names against reference tables",
"C31":"differential property-based testing: generated ranges against the published calendars",
"C32":"property-based testing: sortedness and permutation of generated lists",
"C33":"property-based testing of generated lists against a reference transformation",
"C34":"property-based testing of generated values against reference texts",
"C36":"stateful property-based testing: generated changes of the table, switches and queries against a reference model",
"C37":"fuzzing of every exported operation with generated arguments; oracle: it returns",
"C38":"property-based testing: generated queries in generated surroundings against a reference, with the process's state compared before and after",
"C39":"differential property-based testing: generated HTTP requests against the standard library serving the files on disk",
"C40":"metamorphic property-based testing: two computations of the package on the same days",
"C41":"stateful property-based testing: generated sequences of operations on copies of days against a model",
"C42":"differential property-based testing: generated batches of queries on a 32-bit and a 64-bit build",
"C43":"property-based testing of generated runs of the script with stand-ins for the network and the clock",
"C44":"property-based testing: generated answers of the service against an independent reading of them",
"C35":"end-to-end property-based testing of tool runs against the reference and the committed table",
}
N={
"C15":"Known findings (holes of the dataset) are listed by date; any other missing or misplaced moon is reported.",
"C20":"One known finding (the sign of the solar correction), keyed; every other relation is asserted in full.",
"C26":"Finds races and wrong answers in the schedules the Go runtime happens to run; schedules are not enumerated.",
"C28":"Third-party ical and uuid packages are stand-ins (not available offline).",
"C29":"Third-party cli, ical, spew and uuid packages are stand-ins (not available offline).",
}
checks=[]
for l in open(V+'/properties.jsonl'):
    p=json.loads(l); i=p['id']
    checks.append(dict(property=i,quick_cmd=f"bash run.sh {i} quick",thorough_cmd=f"bash run.sh {i} thorough",
      evidence_file=f"evidence/{i}.json",technique=T[i],level="exploration",
      level_note=("Generated-input search with an explicit oracle, over: "+p['quantifier']['text']+". Assures what was explored, not absence of violations; trusts the reference in harness/ref. "+N.get(i,"")).strip()))
doc=dict(version=1,setup_cmd="bash run.sh setup",checks=checks,not_applicable=[],
  notes="No hooks in /repo. run.sh builds the tree through a -overlay that lays a go.mod over it; see DESIGN.md.")
json.dump(doc,open(V+'/MANIFEST.json','w'),indent=1,ensure_ascii=False); open(V+'/MANIFEST.json','a').write("\n")
