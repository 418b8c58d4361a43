# regenerates MANIFEST.json from props.py and properties.jsonl
import json,os,sys
H=os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0,H)
from props import PROPS, NA
ids=[json.loads(l)["id"] for l in open(os.path.join(H,"..","properties.jsonl"))]
m=dict(version=1,setup_cmd="python3 vsim/check.py --setup",checks=[],not_applicable=[],
  notes="No hooks in /repo are needed: the library is header-only and every seam (byte source, channel, sink, allocator, iterator, memory access, thread scheduler) is an argument, a template parameter or compiler instrumentation.")
for i in ids:
    if i in PROPS:
        P=PROPS[i]
        m["checks"].append(dict(property=i,quick_cmd="python3 vsim/check.py %s --tier quick"%i,thorough_cmd="python3 vsim/check.py %s --tier thorough"%i,
          evidence_file="evidence/%s.json"%i,technique=P.get("technique","deterministic simulation with fault injection (seeded search, replayable)"),level="exploration",level_note=P["note"]))
    else:
        m["not_applicable"].append(dict(property=i,reason=NA.get(i,"check under construction; not claimed yet")))
json.dump(m,open(os.path.join(H,"..","MANIFEST.json"),"w"),indent=1)
