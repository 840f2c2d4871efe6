"""Put the table of planted changes into DESIGN.md."""
import glob
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| change | property | breaks | reported by |', '| --- | --- | --- | --- |']
for f in sorted(glob.glob(os.path.join(V, 'seeded', '*', 'meta.json'))):
    m = json.load(open(f))
    rows.append(f"| {os.path.basename(os.path.dirname(f))} | {m['property']} | {m['what_it_breaks']} (needs: {m['needs']}) | {m.get('caught_by', m['property'])} |")
p = os.path.join(V, 'DESIGN.md')
s = open(p).read()
a, b = s.index('<!-- table -->'), s.index('<!-- /table -->')
open(p, 'w').write(s[:a] + '<!-- table -->\n' + '\n'.join(rows) + '\n' + s[b:])
