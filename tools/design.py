#!/usr/bin/env python3
"""Write DESIGN.md: the prose of tools/design.txt with, per property, its title, the headers encoded and the bounds of its harnesses."""
import json, glob, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = {p['id']: p for p in map(json.loads, open(V + '/properties.jsonl'))}
na = json.load(open(V + '/tools/na.json'))
seeds = {}
for m in sorted(glob.glob(V + '/seeded/*/meta.json')):
    d = json.load(open(m)); seeds.setdefault(d['property'], []).append((os.path.basename(os.path.dirname(m)), d))
fixes = {}
for l in open(V + '/known-findings.txt'):
    m = re.match(r'fixed: property=(C\d+) (\w+) (.*)', l)
    if m: fixes.setdefault(m[1], []).append((m[2], m[3]))
txt = open(V + '/tools/design.txt').read()
def sect(pid):
    p = props[pid]; out = [f"### {pid} {p['title']}", '']
    if pid in na: return '\n'.join(out + ['Not applicable: ' + na[pid] + '.', ''])
    out.append('Encoded: ' + ', '.join(f.replace('include/osmium/', '') for f in p['anchors']['files']) + '.'); out.append('')
    for h in sorted(glob.glob(f'{V}/harness/{pid}_*.cpp')):
        b = [re.match(r'//@\s*bounds:\s*(.*)$', l) for l in open(h)]; mk = [re.match(r'//@\s*mock:\s*(.*)$', l) for l in open(h)]
        out.append(f"- `harness/{os.path.basename(h)}`: " + ' '.join(m[1] for m in b if m) + (' Stand-ins: ' + ', '.join(m[1].strip() for m in mk if m) + '.' if any(mk) else ''))
    out.append('')
    m = re.search(r'^@' + pid + r'\n(.*?)(?=^@|\Z)', txt, re.S | re.M)
    if m: out += [m[1].strip(), '']
    for a, b in fixes.get(pid, []): out.append(f'- Repaired `{a}`: {b}.')
    for a, b in seeds.get(pid, []): out.append(f"- Planted `{a}`: {b['what_it_breaks']} (needs {b['needs']}); caught.")
    return '\n'.join(out + [''])
head, tail = txt.split('@PROPERTIES\n', 1); tail = tail.split('@TAIL\n', 1)[1].split('@C', 1)[0]
open(V + '/DESIGN.md', 'w').write(head + '\n'.join(sect(p) for p in sorted(props)) + '\n' + tail)
