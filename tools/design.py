"""Write DESIGN.md from docs, the specification, evidence and planted bugs."""
import glob
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [HERE, os.path.join(HERE, "tools")]
from spec import PROPS  # noqa


def read(name):
    with open(os.path.join(HERE, name)) as fd:
        return fd.read().rstrip() + "\n"


out = [read("docs/head.md"), "\n## 2. Properties\n"]
for p in PROPS:
    out.append(f"\n### {p['id']}: {p['title']}\n\n")
    if "na" in p:
        out.append(f"Not applicable: {p['na']}\n")
        continue
    mod = importlib.import_module(f"sa.props.{p['id'].lower()}")
    with open(os.path.join(HERE, "evidence", p["id"] + ".json")) as fd:
        cov = json.load(fd)["coverage"]
    out.append(f"{mod.EXPLANATION}\n\n")
    by = cov["obligations_by_rule"]
    for name, text in cov["rules"].items():
        count = by.get(name, "")
        count = count if not isinstance(count, dict) else count.get("total", sum(v for v in count.values() if isinstance(v, int)))
        out.append(f"* {name}: {text}\n")
    bound = p["note"] or "No bound besides joins (section 1)."
    out.append(f"\nLevel: {p['level']}. {bound} Beyond tests: {p['why']}\n")

out.append("\n## 3. Planted bugs\n\nAll are found by the check of their property (`tools/seed.sh`).\n\n| bug | property | what it breaks | needs |\n| --- | --- | --- | --- |\n")
for path in sorted(glob.glob(os.path.join(HERE, "seeded", "*", "meta.json"))):
    with open(path) as fd:
        meta = json.load(fd)
    out.append(f"| {os.path.basename(os.path.dirname(path))} | {meta['property']} | {meta['what_it_breaks']} | {meta['needs']} |\n")
if os.path.exists(os.path.join(HERE, "docs", "seeds.md")):
    out.append("\n" + read("docs/seeds.md"))
out.append("\n" + read("docs/tail.md"))
with open(os.path.join(HERE, "DESIGN.md"), "w") as fd:
    fd.write("".join(out))
