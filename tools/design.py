"""Writes DESIGN.md: prose below + the facets registered in pbt/props + the planted bugs."""
import glob
import json
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [VERIF, "/repo"]
from pbt import harness as H  # noqa: E402

HEAD = open(os.path.join(VERIF, "tools", "design_head.md")).read()
TAIL = open(os.path.join(VERIF, "tools", "design_tail.md")).read()


def prose():
    out, cur = {}, None
    for line in open(os.path.join(VERIF, "tools", "design_props.md")):
        if line.startswith("## "):
            cur = line[3:].strip()
            out[cur] = ""
        elif cur:
            out[cur] += line
    return out


def main():
    text = HEAD.rstrip() + "\n\n# Properties\n\n"
    P = prose()
    caught = {}
    path = os.path.join(VERIF, "tools", "caught.json")
    if os.path.exists(path):
        caught = json.load(open(path))
    for line in open(os.path.join(VERIF, "properties.jsonl")):
        d = json.loads(line)
        p = d["id"]
        text += "## %s %s\n\n%s\n\n" % (p, d["title"], P[p].strip())
        text += "| facet | quick / thorough cases | generated and compared |\n|---|---|---|\n"
        for f in H.load_property(p):
            text += "| %s | %d / %d | %s |\n" % (f.name, f.quick, f.thorough, f.rule.strip().replace("|", "\\|"))
        text += "\n"
    text += TAIL.rstrip() + "\n\n# Planted bugs\n\n"
    text += ("Every bug below builds, passes the 468 stable tests, and its demonstration fails with it and passes without it. "
             "The last column is the result of the property's quick check (`VERIF_SEED=1`) on the patched tree.\n\n")
    text += "| bug | property | what it breaks | needs | quick check |\n|---|---|---|---|---|\n"
    for m in sorted(glob.glob(os.path.join(VERIF, "seeded", "*", "meta.json"))):
        i = os.path.basename(os.path.dirname(m))
        d = json.load(open(m))
        text += "| %s | %s | %s | %s | %s |\n" % (i, d["property"], d["what_it_breaks"].replace("|", "\\|"), d["needs"].replace("|", "\\|"), caught.get(i, "?"))
    open(os.path.join(VERIF, "DESIGN.md"), "w").write(text)


main()
