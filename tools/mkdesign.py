"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json,glob,re,os
rows=["| id | property | needs | breaks | caught by |","|---|---|---|---|---|"]
for p in sorted(glob.glob('/verif/seeded/*/meta.json')):
    m=json.load(open(p)); i=os.path.basename(os.path.dirname(p))
    rows.append("| %s | %s | %s | %s | %s |"%(i,m["property"],m["needs"],m["what_it_breaks"],m.get("caught_by",m["property"])))
d=open('/verif/DESIGN.md').read()
d=re.sub(r"(<!-- seeds .*?-->\n).*?(<!-- /seeds -->)",lambda k:k.group(1)+"\n".join(rows)+"\n"+k.group(2),d,flags=re.S)
open('/verif/DESIGN.md','w').write(d)
