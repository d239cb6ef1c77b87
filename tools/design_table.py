#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import json, glob, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
missed = {
 "following-gives-up-after-a-thousand-days": "closures of up to 140 000 days",
 "solve-floors-small-pivots": "abscissa scales down to 1e-15",
 "month-end-search-stops-after-ninety-days": "closures of up to a century",
 "coupons-end-after-sixty-years": "bonds of up to 1 001 coupons",
 "curve-remembers-last-factor-of-the-thread": "pairs and triples of single questions",
 "catmull-nearly-even-spacing-taken-as-even": "grids even but for a power of two (was caught by luck of one grid)",
}
extra = os.path.join(ROOT, "tools", "missed.json")
if os.path.exists(extra): missed.update(json.load(open(extra)))
rows = []
for f in glob.glob(os.path.join(ROOT, "seeded/*/meta.json")):
    m = json.load(open(f)); i = os.path.basename(os.path.dirname(f))
    rows.append((m["property"], i, m["needs"], missed.get(i, "")))
rows.sort()
d = os.path.join(ROOT, "DESIGN.md"); s = open(d).read()
s = s[:s.index("## Planted bugs")] + "## Planted bugs\n" + f"""
{len(rows)} changes in `seeded/`, each caught by the quick check of its property.  The last column says what was added where the
check first missed it.

| check | change | needs | added after a miss |
|---|---|---|---|
""" + "".join(f"| {a} | {b} | {c} | {e} |\n" for a, b, c, e in rows)
open(d, "w").write(s)
