"""Rewrites the table of planted bugs in DESIGN.md (between the seeds markers)."""
import json, os
MISSED = {  # missed when planted -> what was strengthened
 "same-again": "MC_Clash.SameWorlds", "param-annot": "MC_Annos places", "fixed-order": "MC_Annos places", "hidden-dirs": "MC_Dirs.Odd",
 "write-first": "MC_Cli.AgainWorlds", "fallback-dir": "MC_Cli.ImportDirWorlds", "named-branch": "MC_Defaults.TwoBranches",
 "float-precision": "MC_Literals: more precisions", "case-fold": "MC_Imports.NearNameWorlds", "null-default": "MC_Json.JDefaultWorlds",
 "indent-bytes": "MC_Docs.SpaceLineWorlds in C24", "float-suffix": "MC_Literals.SuffixWorlds", "union-backwards": "MC_Imports.JOrderWorlds",
 "dirs-reversed": "MC_Cli.ImportDirSchemata", "empty-doc": "MC_Json.JTextWorlds", "crlf-doc": "MC_Docs in C18", "late-dirs": "MC_Sessions.LateDirWorlds",
}
MISSED.update(json.load(open(os.path.join(os.path.dirname(__file__), "missed.json"))) if os.path.exists(os.path.join(os.path.dirname(__file__), "missed.json")) else {})
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for i in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(f"{V}/seeded/{i}/meta.json"))
    rows.append((m["property"], i, m))
rows.sort(key=lambda r: r[:2])
out = ["| bug | property | needs: breaks | strengthened |", "|---|---|---|---|"]
for p, i, m in rows:
    out.append("| %s%s | %s | %s: %s | %s |" % (i, "*" if i in MISSED else "", p, m["needs"].replace("|", "/"), m["what_it_breaks"].replace("|", "/"), MISSED.get(i, "")))
d = open(V + "/DESIGN.md").read()
if "SEEDTABLE" in d:
    d = d.replace("SEEDTABLE", "<!-- seeds -->\n<!-- /seeds -->")
a = d.index("<!-- seeds -->") + len("<!-- seeds -->\n"); b = d.index("<!-- /seeds -->")
open(V + "/DESIGN.md", "w").write(d[:a] + "\n" + "\n".join(out) + "\n\n" + d[b:])
