#!/usr/bin/env python3
"""writes /verif/MANIFEST.json: every property with a check module is claimed"""
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TRACE = "TLA+ spec checked with TLC; TLC-generated call schedules replayed into the real code; every recorded trace validated against the spec by TLC"
DEFAULT = ("Every public call of the driven schedules must be exactly the specification's transition (bytes, state carried between calls, frame); "
           "the schedules cover every transition of the TLC-explored call-protocol machine. Keys and data are sampled from VERIF_SEED. "
           "Trusted: TLC, the trace recorder in /verif/harness, the compiler.")
JOINT = ("Several executions of the real code are one behaviour of JointTrace: after equal histories a call must have equal results and, where "
         "stated, an untouched surrounding, %s. TLC also checks the design model and that its planted defects are found. "
         "Keys, data and call sequences are sampled from VERIF_SEED. Trusted: TLC, the trace recorder in /verif/harness, the compilers%s.")
NOTES = {"C04": JOINT % ("whichever copy and build of the algorithm executes it", ""),
         "C22": JOINT % ("whatever the object and other objects were used for before, and in whichever thread", "; thread interleavings are the scheduler's"),
         "C23": JOINT % ("whatever unrelated memory contains and however data is aligned", ""),
         "C24": JOINT % ("whether or not the memory around every buffer is accessible; an access outside it is an event that is no step", " and their address and bounds sanitisers"),
         "C25": JOINT % ("whichever compiler and options built it", ""),
         "C26": JOINT % ("whether the output is the input's memory or not", ""),
         "C29": "Several executions of the real code are one behaviour of ValueTrace: equal operands must have equal results wherever they are stored, and nothing "
                "else may change. TLC also checks the design model and that its planted defects are found. Keys, messages and operations are sampled "
                "from VERIF_SEED. Trusted: TLC, the recorder in /verif/harness, GMP; thread interleavings are the scheduler's.",
         "C28": "ProcTrace compares the settings of the process after every call with those it was started with; JointTrace compares the results of equal "
                "calls in differently set processes. TLC also checks the design model and that its planted defects are found. Keys, data and call "
                "sequences are sampled from VERIF_SEED. Trusted: TLC, the recorder in /verif/harness, which lists the settings observed, the compilers.",
         "C27": "The same calls are made lap after lap; HeapTrace compares what is allocated after each with the lap before. TLC also checks that the reader "
                "notices every loss on a driven path (HeapModel). Keys, data and call sequences are sampled from VERIF_SEED. Trusted: TLC, the counting "
                "allocator in /verif/harness, the compilers."}
NA = {}
checks, na = [], []
for line in open(os.path.join(V, "properties.jsonl")):
    pid = json.loads(line)["id"]
    if os.path.exists(os.path.join(V, "tools/checks/%s.py" % pid.lower())):
        checks.append({"property": pid, "quick_cmd": "python3 tools/check.py %s quick" % pid, "thorough_cmd": "python3 tools/check.py %s thorough" % pid,
                       "technique": TRACE, "level": "model_checking", "level_note": NOTES.get(pid, DEFAULT)})
    else:
        na.append({"property": pid, "reason": NA.get(pid, "no check built yet")})
json.dump({"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "not")
