# Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json.
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = os.path.join(H, 'DESIGN.md')
mark = '## Planted bugs and the checks that catch them\n'
t = open(d).read().split(mark)[0].rstrip('\n') + '\n\n' + mark + '''
Each was written from the text of its property and the code, and kept whether or not the checks caught it; every one listed
is now caught (exit 1 with its property's VIOLATION line, quick tier) by the check of its property.  "unit" tells where a
miss led to a new or larger unit.

| bug | what it breaks | needs | unit added for it |
|---|---|---|---|
'''
for i in sorted(os.listdir(os.path.join(H, 'seeded'))):
    m = json.load(open(os.path.join(H, 'seeded', i, 'meta.json')))
    t += '| %s | %s | %s | %s |\n' % (i, m['what_it_breaks'].rstrip('.'), m['needs'].rstrip('.'), m.get('led_to', ''))
open(d, 'w').write(t)
