"""Rewrites the counts and the table of planted changes in DESIGN.md."""
import glob
import json
import os
import re

root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
path = os.path.join(root, "DESIGN.md")
text = open(path).read()
text = text[:text.index("## Planted changes")]
fixed = sum(line.startswith("fixed:") for line in open(os.path.join(root, "known_findings.txt")))
text = re.sub(r"^\d+ repairs", f"{fixed} repairs", text, flags=re.M)
props = sum(1 for _ in open(os.path.join(root, "properties.jsonl")))
text = re.sub(r"^\d+ properties", f"{props} properties", text, flags=re.M)
rows = []
for d in sorted(glob.glob(os.path.join(root, "seeded", "*", "meta.json"))):
    m = json.load(open(d))
    rows.append(f"| {os.path.basename(os.path.dirname(d))} | {m['property']} | {m['needs']} "
                f"| {m['what_it_breaks']} |")
text += f"""## Planted changes

{len(rows)} changes in `seeded/`, each confirmed to pass the 39 tests, to pass its demo on the unchanged
tree and to fail it with the patch. The quick check of the named property (exit 1, shrunk replay)
catches every one of them. Misses on the way led to the subs and clauses named "side by side"
(C04), the moved orders of C08, `copy()` in C27, `plane(outcomes)` in C05 and the opposite angles in
C32. Mutation runs (random operator, constant and condition mutants of the base files that pass the
tests) are the second source of improvements; the survivors left are equivalent mutants, messages,
reprs and out-of-scope code.

| change | property | needs | breaks |
|--------|----------|-------|--------|
""" + "\n".join(rows) + "\n"
open(path, "w").write(text)
