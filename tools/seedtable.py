"""Prints the table of planted bugs for DESIGN.md."""
import json
import os

root = os.path.join(os.path.dirname(__file__), '..', 'seeded')
rows = []
for s in sorted(os.listdir(root)):
    m = json.load(open(os.path.join(root, s, 'meta.json')))
    rows.append((m['property'], s, m['needs'].rstrip('.')))
for p, s, n in sorted(rows):
    print('| %s | `%s` | %s |' % (p, s, n))
