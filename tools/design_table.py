"""Rewrite the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import collections, glob, json, os, re
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
t = collections.defaultdict(list)
for f in sorted(glob.glob("seeded/*/meta.json")):
    t[json.load(open(f))["property"]].append(f.split("/")[1])
s = open("DESIGN.md").read()
head = "| property | planted bugs caught |\n| --- | --- |\n"
i = s.index(head) + len(head)
j = i
for line in s[i:].splitlines(True):
    if not line.startswith("|"):
        break
    j += len(line)
s = s[:i] + "".join(f"| {k} | {', '.join(v)} |\n" for k, v in sorted(t.items())) + s[j:]
open("DESIGN.md", "w").write(s)
