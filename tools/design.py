"""Insert the table of planted bugs into DESIGN.md."""
import json, pathlib, re
root = pathlib.Path(__file__).resolve().parent.parent
rows = []
for d in sorted((root / 'seeded').iterdir()):
    m = json.loads((d / 'meta.json').read_text())
    rows.append((m['property'], d.name, m['what_it_breaks'], m['needs']))
rows.sort()
cell = lambda s: ' '.join(str(s).split()).replace('|', '/')
tab = '| property | bug | what it breaks | needs |\n|---|---|---|---|\n' + ''.join(
    f'| {a} | {b} | {cell(c)} | {cell(d)} |\n' for a, b, c, d in rows)
p = root / 'DESIGN.md'
t = p.read_text()
t = re.sub(r'<!--seeded-->.*<!--/seeded-->', lambda m: f'<!--seeded-->\n{tab}<!--/seeded-->', t, flags=re.S)
p.write_text(t)
