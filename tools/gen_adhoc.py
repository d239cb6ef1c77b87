#!/usr/bin/env python3
"""One-off generator of harness/rules/adhoc.rules (not run by any check).

Input: lines `Market YYYY-MM-DD code_open=false ...` = weekdays the library closes and no recurring rule
explains.  They are the year-by-year announced holidays (lunar, Hebrew, Hindu and Islamic feasts, one-off
closings).  They were cross-checked once against ICU's Chinese, Dangi, Hebrew and Islamic calendars and
against the published lists (DESIGN.md); the errors found were repaired in /repo by "fix:" commits before
the list was frozen here."""
import sys, datetime as D
days = {}
for l in open(sys.argv[1]):
    p = l.split()
    if p[0].startswith('France') or p[2] != 'code_open=false':
        continue
    days.setdefault(p[0], []).append(D.date.fromisoformat(p[1]))
print("# Announced, year-specific holidays (syntax: see europe.rules); written once by tools/gen_adhoc.py.")
for c in sorted(days):
    print(f"\n[{c}]")
    ds = sorted(days[c]); i = 0
    while i < len(ds):
        j = i
        while j + 1 < len(ds) and ds[j+1] - ds[j] == D.timedelta(1):
            j += 1
        print(ds[i].isoformat() if i == j else f"{ds[i]}..{ds[j]}")
        i = j + 1
