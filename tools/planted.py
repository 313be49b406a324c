"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json.

This is documentation: no check reads seeded/, or this."""
import glob, json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = '## Planted bugs\n'

rows = {}
for f in sorted(glob.glob(os.path.join(HERE, 'seeded', '*', 'meta.json'))):
    m = json.load(open(f))
    rows.setdefault(m['property'], []).append((os.path.basename(os.path.dirname(f)), m))
text = MARK + """
Each is in `seeded/`, with a demonstration, and was written from the text of the property and the code. All of them are caught
by the quick check of the property they break (confirmed by applying each to `/repo` and running it); those which were at first missed are the reason for many of
the units above. Between them they were written in rounds: after each round the checks which had missed something were
widened by a *dimension* (sizes, look-alikes, neighbours, orders, two documents at once), not by the case missed.

| check | catches | which breaks it so |
|---|---|---|
"""
for p in sorted(rows):
    for name, m in rows[p]:
        text += f"| {p} | {name} | {m['what_it_breaks'].replace('|', '/')} (needs: {m['needs'].replace('|', '/')}) |\n"
path = os.path.join(HERE, 'DESIGN.md')
s = open(path).read().split(MARK)[0].rstrip('\n')
open(path, 'w').write(s + '\n\n' + text)
