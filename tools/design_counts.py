"""Refreshes the configuration counts in DESIGN.md.  Run by hand: python3-vt tools/design_counts.py"""
import importlib, os, re, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, ROOT)
n = {}
for i in range(1, 30):
    m = importlib.import_module(f"props.c{i:02d}")
    n[f"C{i:02d}"] = f"{sum(len(h.quick) for h in m.HARNESSES)}/{sum(len(h.thorough) for h in m.HARNESSES)}"
p = ROOT + "/DESIGN.md"; out = []
for line in open(p):
    ids = re.findall(r"\*\*(C\d\d)|^\*\*C\d\d/(C\d\d)", line)
    if line.startswith("**C"):
        ids = []
        for a in re.findall(r"\*\*(C\d\d(?:/C\d\d)?)", line): ids += a.split("/")
        it = iter(ids)
        line = re.sub(r"(?<=[(\s])\d+/\d+(?=[,)])", lambda m: n[next(it)], line, count=len(ids))
    out.append(line)
open(p, "w").writelines(out)
