"""single source of properties.jsonl, MANIFEST.json and harness/drivers.json.  usage: python tools/props.py"""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CL, OP = "clustertools/cluster/cluster.py", "clustertools/cluster/operations.py"
FN, PR, OR = "clustertools/analysis/functions.py", "clustertools/analysis/profiles.py", "clustertools/analysis/orbits.py"
TT = "clustertools/tidaltail/tails.py"
UN, CO, RE, OU = ("clustertools/util/%s.py" % x for x in ("units", "coordinates", "recipes", "output"))
LO = "clustertools/io/load.py"
HIST = ("Call histories are enumerated (every history of length 1 from every units/origin pair) and sampled (long ones) by TLC "
        "from spec/Histories.tla and replayed on clusters with random stars, centre, orbit and scales; every call is one judged event. "
        "A case is distinct when its starting state and its sequence of calls differ.")
FUNC = ("Random inputs (sizes, units, origins, scales, optional arguments) drive the real function; every call is recorded with its "
        "arguments and result and judged by the TLA+ operator that defines it. Distinct: starting state and calls differ.")
P = []


def prop(id, title, statement, over, qtext, why, files, mech, driver=None, module=None, level="exploration", rule=FUNC,
         technique=None, note=None, na=None, **kw):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, driver=driver,
                  module=module, level=level, rule=rule, technique=technique, note=note, na=na, kw=kw))


exec(open(os.path.join(HERE, "tools", "props_data.py")).read())

ids = [p["id"] for p in P]
assert len(set(ids)) == len(ids)
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        q = dict(id=p["id"], title=p["title"], statement=p["statement"],
                 quantifier=dict(over=p["over"], text=p["qtext"]), why_tests_cant=p["why"],
                 anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]], hook_needed=None))
        f.write(json.dumps(q) + "\n")
checks, na, drv = [], [], {}
for p in P:
    if not p["driver"]:
        na.append(dict(property=p["id"], reason=p["na"] or "its specification and driver are not built yet"))
        continue
    drv[p["id"]] = dict(driver=p["driver"], module=p["module"], level=p["level"], rule=p["rule"], **p["kw"])
    hist = p["level"] == "model_checking"
    checks.append(dict(property=p["id"], quick_cmd="./check %s quick" % p["id"], thorough_cmd="./check %s thorough" % p["id"],
                       evidence_file="evidence/%s.json" % p["id"],
                       technique=p["technique"] or ("TLA+/TLC: model-checked design, TLC-generated histories replayed, traces validated"
                                                    if hist else "TLA+/TLC: recorded real executions validated against a TLA+ specification"),
                       level=p["level"], level_note=p["note"] or (
                           "The control design is model-checked exhaustively; the real code is judged on every TLC-enumerated short history and on sampled long ones, with sampled real-valued data."
                           if hist else "Inputs are sampled (seeded), the judgement of each execution is by the specification; no proof over all inputs.")))
json.dump(dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
               notes="Language: TLA+ with TLC. No hooks in /repo. See DESIGN.md."),
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
json.dump(drv, open(os.path.join(HERE, "harness", "drivers.json"), "w"), indent=1)
print(len(P), "properties,", len(checks), "claimed")
