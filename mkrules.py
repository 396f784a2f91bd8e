"""RULES.md from the evidence files: the text of every rule decided, with its number of obligations"""
import json, glob
o = ["# Rules, per property (generated by mkrules.py from the evidence of the current tree)", ""]
for p in sorted(glob.glob("evidence/C*.json")):
    d = json.load(open(p))
    o.append("## %s — %d obligations" % (d["property"], d["coverage"]["obligations"]))
    for r, v in d["coverage"]["rules"].items():
        o.append("* **%s** (%d): %s" % (r, v["obligations"], v["text"]))
    o.append("")
    o.append("Assumes: " + "; ".join(d["assumptions"]) + "." if d["assumptions"] else "Assumes nothing besides the trusted base.")
    o.append("")
open("RULES.md", "w").write("\n".join(o))
