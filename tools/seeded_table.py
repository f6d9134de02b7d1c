"""Rewrites the table of planted changes in DESIGN.md from seeded/*/meta.json."""
import glob
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BEGIN, END = '<!-- seeded:begin -->', '<!-- seeded:end -->'

rows = ['| change | property (its quick check reports it) | needs |', '|---|---|---|']
for path in sorted(glob.glob(os.path.join(HERE, 'seeded', '*', 'meta.json'))):
    with open(path) as f:
        meta = json.load(f)
    rows.append('| {} | {} | {} |'.format(path.split('/')[-2], meta['property'], meta['needs']))
with open(os.path.join(HERE, 'DESIGN.md')) as f:
    text = f.read()
head, rest = text.split(BEGIN)
tail = rest.split(END)[1]
with open(os.path.join(HERE, 'DESIGN.md'), 'w') as f:
    f.write(head + BEGIN + '\n' + '\n'.join(rows) + '\n' + END + tail)
