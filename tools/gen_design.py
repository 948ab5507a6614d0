"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, glob, re, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s = '<!--BUGS-->\n## 4. Planted bugs\n\nEach is caught by the check of its property (last column: the checks that report it).\n\n| id | breaks | needs | caught by |\n|---|---|---|---|\n'
for f in sorted(glob.glob(R + '/seeded/*/meta.json')):
    m = json.load(open(f))
    s += '| %s | %s | %s | %s |\n' % (f.split('/')[-2], m['what_it_breaks'], m['needs'], m.get('caught_by', m['property']))
d = open(R + '/DESIGN.md').read()
d = re.sub(r'<!--BUGS-->.*<!--/BUGS-->', lambda _: s + '<!--/BUGS-->', d, flags=re.S)
open(R + '/DESIGN.md', 'w').write(d)
