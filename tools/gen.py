#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run by hand after editing)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "deterministic simulation with fault injection (seeded schedule and fault search, reference-model oracle, replay)"
LEVEL = "Seeded exploration: every run is one exactly repeatable execution of the real code under the simulator; no violation on the explored seeds is evidence, not proof. Trusted: the simulator runtime (sim/rt), the reference model of the scenario, the compiler's TSan instrumentation that provides the scheduling points at atomics."

def P(id, title, statement, over, text, why, files, mech, observe, state=None, note=""):
    return dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, observe=observe, state=state or [], note=note)

def m(name, where): return dict(name=name, where=where)

PROPS = []
exec(open(os.path.join(HERE, "tools", "props.py")).read())

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
            quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
            anchors=dict(files=p["files"], state=p["state"], mechanism=p["mech"], observe_at=p["observe"], hook_needed=None)), ensure_ascii=False) + "\n")
    for p in NA:
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
            quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
            anchors=dict(files=p["files"], state=p["state"], mechanism=p["mech"], observe_at=p["observe"], hook_needed=None)), ensure_ascii=False) + "\n")

man = dict(version=1, setup_cmd="bash build.sh",
    hooks=dict(guard="none", enable="no hooks in /repo: the seams are the libc calls, the allocator, the TSan-instrumented atomics and the public API, all provided by /verif/sim", source_commits=[]),
    checks=[dict(property=p["id"], quick_cmd="bash check.sh %s quick" % p["id"], thorough_cmd="bash check.sh %s thorough" % p["id"],
                 technique=TECH, level="exploration", level_note=(p["note"] + " " if p["note"] else "") + LEVEL) for p in PROPS],
    not_applicable=[dict(property=p["id"], reason=p["reason"]) for p in NA],
    notes="known_findings.txt lists repaired defects and, if any, recorded findings; DESIGN.md describes the machinery.")
json.dump(man, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")
