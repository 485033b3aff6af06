#!/usr/bin/env python3
# Source of /verif/MANIFEST.json: run from /verif to regenerate it.
import json, sys
sys.path.insert(0, "/verif/tools")
from config import PROPS
props = [json.loads(l) for l in open("/verif/properties.jsonl")]
NA = {
 "P17": "The translator emits C that the TinyCC library compiles in-process; that library is not installed here and the build fetches it from the network, so no translated code can be produced and the option is off in the build that is tested. Compiling the emitted C with another compiler would simulate something else than what ships.",
 "N01": "A pure function of one instruction's operands: no schedule, time, I/O, fault or multi-party behaviour for a simulator to control (that the engines agree on it is P04).",
 "N02": "serialize_to/deserialize_from are declared but not implemented at this commit; there is no behaviour to simulate.",
 "N03": "A pure lookup over static tables of the executable: nothing depends on schedule, time, I/O or faults.",
}
PENDING = {}
TECH = "deterministic simulation with fault injection: seeded search over plans, minimised replayable traces"
NOTE = json.load(open("/verif/tools/notes.json"))
m = {"version": 1, "setup_cmd": "python3 tools/setup.py",
     "checks": [{"property": p["id"], "quick_cmd": "python3 tools/check.py %s quick" % p["id"], "thorough_cmd": "python3 tools/check.py %s thorough" % p["id"],
                 "technique": TECH + (": " + NOTE[p["id"]][0] if p["id"] in NOTE else ""), "level": "exploration", "level_note": NOTE.get(p["id"], ["", "Seeded sampling, not exhaustive."])[1]} for p in props if p["id"] in PROPS],
     "not_applicable": [{"property": p["id"], "reason": NA.get(p["id"], "Check not built yet.")} for p in props if p["id"] not in PROPS]}
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
