"""writes the table of planted bugs into DESIGN.md from seeded/*/meta.json and seeded/results.json ({id: [catching check, note]})"""
import json, os, re
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = json.load(open(R + "/seeded/results.json"))
rows = ["| bug | property | caught by | what it breaks |", "|---|---|---|---|"]
for d, K in sorted((d, K) for K in ("seeded", "seeded_more") for d in os.listdir(R + "/" + K)):
    m = R + "/%s/%s/meta.json" % (K, d)
    if not os.path.exists(m): continue
    m = json.load(open(m)); r = res.get(d, ["?", ""])
    rows.append("| %s | %s | %s | %s |" % (d, m["property"], r[0] + (" (%s)" % r[1] if r[1] else ""), re.sub(r"\s+", " ", m["what_it_breaks"])[:160].replace("|", "/")))
s = open(R + "/DESIGN.md").read()
t = "<!-- seeded -->\n" + "\n".join(rows) + "\n<!-- /seeded -->"
s = s.replace("SEEDED_TABLE", t) if "SEEDED_TABLE" in s else re.sub(r"<!-- seeded -->.*<!-- /seeded -->", lambda _: t, s, flags=re.S)
open(R + "/DESIGN.md", "w").write(s)
