"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for i in sorted(os.listdir(root + '/seeded')):
    m = json.load(open(f'{root}/seeded/{i}/meta.json'))
    rows.append((m['property'], f"| {i} | {m['property']} | {m['needs']} |"))
rows.sort()
text = f"""## Planted bugs

{len(rows)} changes are kept in `seeded/`; each is caught by the quick check of the property it is planted for.

| change | property | needs |
|---|---|---|
""" + "\n".join(r for _, r in rows) + "\n"
p = root + '/DESIGN.md'
s = open(p).read()
s = re.sub(r'\n## Planted bugs\n.*?(?=\n## |\Z)', '', s, flags=re.S).rstrip() + '\n\n' + text
open(p, 'w').write(s)
