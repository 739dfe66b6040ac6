#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the list below (one source for both).
Run by hand after editing; the results are committed."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
T, C, D = "neutrinomass/tensormethod/", "neutrinomass/completions/", "neutrinomass/database/"


def prop(id, title, statement, quant, why, files, mechanism, technique, note, over=("inputs",), observe=(), state=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier={"over": list(over), "text": quant}, why_tests_cant=why,
                  anchors={"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism],
                           "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                           "observe_at": list(observe), "hook_needed": None},
                  _technique=technique, _note=note))


exec(open(os.path.join(HERE, "tools", "props_list.py")).read())


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}, ensure_ascii=False) + "\n")
    man = {
        "version": 1,
        "setup_cmd": "/opt/venv/bin/python -W ignore tools/setup.py",
        "checks": [{
            "property": p["id"],
            "quick_cmd": f"python3 run.py {p['id']}",
            "thorough_cmd": f"VERIF_TIER=thorough python3 run.py {p['id']}",
            "technique": p["_technique"],
            "level": "exploration",
            "level_note": p["_note"],
        } for p in P],
        "not_applicable": [],
        "notes": "Runtime monitoring: the real package is imported from /repo's working tree (nothing is built or copied), driven by seeded workloads, and independent oracles judge what it returns. No hooks in /repo were needed.",
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1, ensure_ascii=False)
        f.write("\n")


main()
