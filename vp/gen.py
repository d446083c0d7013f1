# -*- coding: utf-8 -*-
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from vp/props.py and
vp/registry.py."""
import json, os
from .props import PROPS
from .registry import CHECKS, NOT_APPLICABLE, PENDING

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in PROPS:
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
    ids = {p["id"] for p in PROPS}
    checks = []
    for pid in sorted(CHECKS):
        assert pid in ids, pid
        c = CHECKS[pid]
        checks.append(dict(
            property=pid,
            quick_cmd="python3 -m vp.check %s" % pid,
            thorough_cmd="python3 -m vp.check %s" % pid,
            evidence_file="evidence/%s.json" % pid,
            technique=c["technique"],
            level="other",
            level_note=c["note"],
        ))
    na = []
    for pid in sorted(ids - set(CHECKS)):
        reason = NOT_APPLICABLE.get(pid) or PENDING.get(pid) or "the checker for this property is not built yet"
        na.append(dict(property=pid, reason=reason))
    man = dict(
        version=1,
        setup_cmd="python3 -m vp.setup",
        hooks=dict(guard="CLEVERCSV_VERIF_NONE",
                   enable="no hooks are needed: every check reads the sources of /repo; nothing in /repo is guarded",
                   source_commits=[]),
        checks=checks,
        not_applicable=na,
        notes="All checks are static: they parse /repo's current sources (Python syntax trees; C through clang's LLVM IR) and never run them. See DESIGN.md.",
    )
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1, ensure_ascii=False)
        f.write("\n")


if __name__ == "__main__":
    main()
