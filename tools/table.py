"""prints the table of planted bugs by property (DESIGN.md, section 8)"""
import collections
import pathlib

d = collections.defaultdict(list)
for p in sorted((pathlib.Path(__file__).resolve().parent.parent / 'seeded').iterdir()):
    d[p.name[:3]].append(p.name[4:])
for k, v in sorted(d.items()):
    print(f'| {k} | {", ".join(v)} |')
