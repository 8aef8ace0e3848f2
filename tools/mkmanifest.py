import json, os, glob
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {"C16": "dispatch goes through NetworkX's backend registry, entry points and the return objects of a third-party test-suite; there is no function body whose contract decides it (names and signatures live in package metadata and in NetworkX), so contract-based deductive verification has no obligation to generate"}
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    low = i.lower()
    if i in NA:
        na.append({"property": i, "reason": NA[i]})
        continue
    if not os.path.exists(os.path.join(ROOT, "concrete", low + ".py")):
        na.append({"property": i, "reason": "not built yet"})
        continue
    b = os.path.join(ROOT, "baseline", low + ".json")
    hs = json.load(open(b))["harnesses"] if os.path.exists(b) else {}
    pr = [h for h, v in hs.items() if v["status"] == "proved"]
    if pr:
        nobl = sum(hs[h]["obligations"] for h in pr)
        checks.append({"property": i, "quick_cmd": f"python3 bin/check.py {i}", "thorough_cmd": f"python3 bin/check.py {i} --tier thorough", "level": "proof",
                       "technique": "contracts on the real functions; verification conditions generated from /repo's source on every run and discharged with z3; failed obligations replayed by running the contracts on the real code",
                       "level_note": f"{len(pr)} of {len(hs)} contracts proved for all inputs ({nobl} obligations) relative to the assumed python-graphblas contracts; the remaining functions are covered by a bounded concrete contract check only, labelled so in the evidence and in DESIGN.md"})
    else:
        checks.append({"property": i, "quick_cmd": f"python3 bin/check.py {i}", "thorough_cmd": f"python3 bin/check.py {i} --tier thorough", "level": "exploration",
                       "technique": "bounded evaluation of contracts on the real functions (no contract of this property is proved yet)",
                       "level_note": "bounded: graphs of at most 8 nodes, generated inputs"})
json.dump({"version": 1, "setup_cmd": "python3 bin/setup.py", "checks": checks, "not_applicable": na,
           "notes": "bin/check.py runs the deductive verifier (engine/, contracts/) and the concrete contract evaluation (concrete/) of one property; see DESIGN.md"}, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
