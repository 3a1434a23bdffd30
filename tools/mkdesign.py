# Fills the table of planted bugs in DESIGN.md.
import json,glob,re
rows=["<!-- seeds -->","| bug | caught by | what it breaks | needs |","|---|---|---|---|"]
for f in sorted(glob.glob('/verif/seeded/*/meta.json')):
    m=json.load(open(f)); rows.append("| %s | %s | %s | %s |"%(f.split('/')[3],m['property'],m['what_it_breaks'],m['needs']))
rows.append("<!-- /seeds -->")
s=open('/verif/DESIGN.md').read()
t="\n".join(rows)
s=s.replace("SEEDTABLE",t) if "SEEDTABLE" in s else re.sub(r"<!-- seeds -->.*<!-- /seeds -->",lambda _:t,s,flags=re.S)
open('/verif/DESIGN.md','w').write(s)
