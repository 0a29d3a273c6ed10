import json,sys
NA={}
ids=[json.loads(l)["id"] for l in open('/verif/properties.jsonl')]
T={json.loads(l)["id"]:json.loads(l)["title"] for l in open('/verif/properties.jsonl')}
note="Seeded search over simulated executions of the whole daemon (real code, simulated event loop, D-Bus, services, clocks, process life cycle); a reference model written from the documented behaviour judges every handler. Shows absence of violations only on the executions explored (about 1500 per quick run, 60000 per thorough run). Trusts the simulated sdbusplus/boost::asio layer and the model."
m={"version":1,"setup_cmd":"python3 bin/build.py","checks":[],
 "not_applicable":[{"property":k,"reason":v} for k,v in NA.items()],
 "notes":"Replay a reported violation with: bin/replay FILE [--trace]. No hooks in /repo are needed: boost::asio, sdbusplus, the clocks and file paths are replaced at compile and link time from /verif/sim."}
for i in ids:
    if i in NA: continue
    m["checks"].append({"property":i,"quick_cmd":f"bin/check {i} quick","thorough_cmd":f"bin/check {i} thorough","evidence_file":f"evidence/{i}.json","technique":"deterministic simulation with fault injection: seeded random schedules and fault sequences of the whole daemon, judged by a reference model","level":"exploration","level_note":note})
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1); open('/verif/MANIFEST.json','a').write("\n")
