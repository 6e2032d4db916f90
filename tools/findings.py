#!/usr/bin/env python3
"""Writes /verif/known_findings.json; run by hand only (no check writes it)."""
import json, os, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines()


def commit(subject):
    m = [l.split(" ", 1)[0] for l in log if l.split(" ", 1)[1].startswith("fix: " + subject)]
    assert len(m) == 1, (subject, m)
    return m[0]


out = []


def fixed(props, subject, what):
    for p in props.split():
        c = commit(subject)
        out.append({"property": p, "key": "fixed/" + c, "status": "fixed", "commit": c,
                    "what": "fixed: property=%s %s %s" % (p, c, what)})


def known(prop, key, what):
    out.append({"property": prop, "key": key, "status": "known", "what": what})


exec(open(os.path.join(ROOT, "tools", "findings_list.py")).read())
json.dump(out, open(os.path.join(ROOT, "known_findings.json"), "w"), indent=1)
open(os.path.join(ROOT, "known_findings.json"), "a").write("\n")
