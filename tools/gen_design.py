"""Fills the table of planted bugs in DESIGN.md from seeded/*/meta.json (run from /verif)."""
import glob, json, re
by = {}
for p in sorted(glob.glob("seeded/*/meta.json")):
    d = json.load(open(p))
    by.setdefault(d["property"], []).append("`%s`" % p.split("/")[1])
table = "| property | planted bugs caught by its quick check |\n|---|---|\n" + "".join(
    "| %s | %s |\n" % (k, ", ".join(v)) for k, v in sorted(by.items()))
s = open("DESIGN.md").read()
s = s.replace("@TABLE@", table) if "@TABLE@" in s else re.sub(
    r"\| property \| planted bugs.*?\n\n", lambda m: table + "\n", s, flags=re.S)
open("DESIGN.md", "w").write(s)
