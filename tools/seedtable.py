"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| %s | %s |' % (os.path.basename(os.path.dirname(f)), json.load(open(f))['needs'].replace('|', '/'))
        for f in sorted(glob.glob(V + '/seeded/*/meta.json'))]
p = V + '/DESIGN.md'
s = open(p).read()
s = re.sub(r'\| Bug \| Needs \|\n\|---\|---\|\n(\|.*\n)*', lambda m: '| Bug | Needs |\n|---|---|\n' + '\n'.join(rows) + '\n', s)
open(p, 'w').write(s)
