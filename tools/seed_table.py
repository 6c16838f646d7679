"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for f in sorted(glob.glob(root + '/seeded/*/meta.json')):
    m = json.load(open(f))
    rows.append((m['property'], os.path.basename(os.path.dirname(f)), m['needs']))
rows.sort()
table = '| caught by | change | needs |\n|---|---|---|\n' + ''.join('| %s | %s | %s |\n' % r for r in rows)
p = root + '/DESIGN.md'
s = open(p).read()
s = s.replace('SEEDTABLE\n', '<!-- seeds -->\n<!-- /seeds -->\n')
s = re.sub(r'<!-- seeds -->.*<!-- /seeds -->', lambda _: '<!-- seeds -->\n' + table + '<!-- /seeds -->', s, flags=re.S)
s = re.sub(r'holds (SEEDCOUNT|\d+) changes', 'holds %d changes' % len(rows), s)
open(p, 'w').write(s)
