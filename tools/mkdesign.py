"""fill the generated tables of DESIGN.md (between markers)."""
import json, os, re, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.chdir(H)
sys.path.insert(0, H)
import meta, props
rows = ["| id | title | level | units | how decided |", "|---|---|---|---|---|"]
for p in sorted(meta.P, key=lambda p: p["rec"]["id"]):
    i = p["rec"]["id"]
    u = ", ".join("`%s*`%s" % (a, " (%s)" % ",".join(w) if w else "") for a, w, _ in props.PROPS.get(i, []))
    rows.append("| %s | %s | %s | %s | %s |" % (i, p["rec"]["title"], p["level"], u.replace("|", "/"), p["note"]))
for n in meta.NA:
    rows.append("| %s | %s | not applicable | | %s |" % (n["rec"]["id"], n["rec"]["title"], n["reason"]))
res = json.load(open("tools/caught.json")) if os.path.exists("tools/caught.json") else {}
s = ["| planted bug | property | needs | caught by |", "|---|---|---|---|"]
for d in sorted(os.listdir("seeded")):
    m = json.load(open("seeded/%s/meta.json" % d))
    s.append("| %s | %s | %s | %s |" % (d, m["property"], m["needs"].replace("|", "/"), res.get(d, "?")))
t = open("DESIGN.md").read()
def put(t, name, rows):
    body = "<!-- %s -->\n%s\n<!-- /%s -->" % (name, "\n".join(rows), name)
    if "<!-- %s -->" % name in t:
        return re.sub("<!-- %s -->.*?<!-- /%s -->" % (name, name), lambda m: body, t, flags=re.S)
    return t.replace(name, body)
t = put(put(t, "PROPTABLE", rows), "SEEDTABLE", s)
open("DESIGN.md", "w").write(t)
