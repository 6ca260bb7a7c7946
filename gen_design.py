# Fills the table of planted bugs in DESIGN.md from seeded/*/meta.json and caught.json (id -> note).
import json, os, re
notes = json.load(open('caught.json')) if os.path.exists('caught.json') else {}
rows = ['| bug | property | needs | caught by |', '|---|---|---|---|']
for i in sorted(os.listdir('seeded')):
    m = json.load(open('seeded/%s/meta.json' % i))
    rows.append('| %s | %s | %s | %s |' % (i, m['property'], m['needs'].replace('|', '/'), notes.get(i, m['property'])))
t = open('DESIGN.md').read()
t = re.sub(r'@@SEEDED@@|<!-- seeded -->.*?<!-- /seeded -->', lambda _: '<!-- seeded -->\n' + '\n'.join(rows) + '\n<!-- /seeded -->', t, flags=re.S)
open('DESIGN.md', 'w').write(t)
