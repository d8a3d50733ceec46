# rewrites the table of planted bugs in DESIGN.md (between the two markers)
import json,os,re
rows=["| planted bug | property | needs |","|---|---|---|"]
for d in sorted(os.listdir('/verif/seeded')):
    m=json.load(open(f'/verif/seeded/{d}/meta.json'))
    rows.append(f"| {d} | {m['property']} | {m['needs']} |")
t=open('/verif/DESIGN.md').read()
body="<!-- seeded -->\n"+"\n".join(rows)+"\n<!-- /seeded -->"
t=t.replace("@SEEDED@",body) if "@SEEDED@" in t else re.sub(r"<!-- seeded -->.*<!-- /seeded -->",lambda _:body,t,flags=re.S)
open('/verif/DESIGN.md','w').write(t)
