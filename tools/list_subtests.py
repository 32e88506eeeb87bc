"""Rewrites the generated list of sub-tests in DESIGN.md (between the two markers)."""
import importlib, os, re, sys

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here)
from pbt import run  # noqa: F401,E402  (sets up the paths)
from pbt.core import REGISTRY  # noqa: E402

out = []
for k in range(1, 100):
    if not os.path.exists(os.path.join(here, "pbt", "props", f"c{k:02d}.py")):
        break
    importlib.import_module(f"pbt.props.c{k:02d}")
    sums = {}
    for t in REGISTRY[f"C{k:02d}"]:
        base = re.sub(r"\.\d+$", "", t.name)
        q = sums.setdefault(base, [0, 0])
        q[0] += t.quick
        q[1] += t.thorough
    out.append(f"* **C{k:02d}** ({sum(a for a, _ in sums.values())} cases): " + ", ".join(f"{n} {a}" for n, (a, _) in sums.items()))
p = os.path.join(here, "DESIGN.md")
s = open(p).read()
b, e = "<!-- sub-tests: begin -->", "<!-- sub-tests: end -->"
i, j = s.index(b) + len(b), s.index(e)
open(p, "w").write(s[:i] + "\n" + "\n".join(out) + "\n" + s[j:])
