#!/usr/bin/env python3
"""Refreshes the tables of planted changes in DESIGN.md."""
import glob, json, os, re, collections, importlib.util
D = '/verif/DESIGN.md'
s = open(D).read()
a = '<!-- seeded -->\n'
rows = ''.join(f"* `{os.path.basename(os.path.dirname(f))}` ({d['property']}): {d['what_it_breaks']}\n" for f in sorted(glob.glob('/verif/seeded/*/meta.json')) for d in [json.load(open(f))])
t = []
for f in sorted(glob.glob('/verif/tools/mutants/*.py')):
    sp = importlib.util.spec_from_file_location('m', f); m = importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
    c = collections.Counter(x for _, e, _ in m.M for x in (e or ['behaviour-preserving']))
    t.append(f"* `{os.path.basename(f)}`: " + ', '.join(f'{k} {v}' for k, v in sorted(c.items())) + '\n')
s = s.replace('SEEDTABLE\n', a + '<!-- end -->\n').replace('MUTTABLE\n', '\n\n<!-- mutants -->\n<!-- end -->\n')
s = re.sub(r'<!-- seeded -->\n.*?<!-- end -->\n', lambda _: a + rows + '<!-- end -->\n', s, flags=re.S)
s = re.sub(r'<!-- mutants -->\n.*?<!-- end -->\n', lambda _: '<!-- mutants -->\n' + ''.join(t) + '<!-- end -->\n', s, flags=re.S)
open(D, 'w').write(s)
