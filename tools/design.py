"""Writes DESIGN.md: head + one section per property (from checks/ and properties.jsonl) + tail + planted bugs."""
import importlib, json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True
T = os.path.join(ROOT, 'tools')
out = [open(os.path.join(T, 'design_head.md')).read()]
for line in open(os.path.join(ROOT, 'properties.jsonl')):
    p = json.loads(line)
    m = importlib.import_module('checks.' + p['id'].lower())
    out.append('### %s %s\n\n%s\n\n' % (p['id'], p['title'], ' '.join(m.__doc__.split(':', 1)[1].split())))
    if hasattr(m, 'ORACLE'):
        out.append('*Oracle.* %s\n\n' % m.ORACLE)
    out.append('*Enumerated (quick).* %s.\n\n*Thorough.* %s.\n\n' % (m.BOUNDS['quick'], m.BOUNDS['thorough']))
    if getattr(m, 'ASSUMPTIONS', None):
        out.append('*Assumptions.* %s.\n\n' % '; '.join(m.ASSUMPTIONS))
    ev = os.path.join(T, 'cost.json')
    if os.path.exists(ev):
        c = json.load(open(ev)).get(p['id'])
        if c:
            out.append('*Cost (quick).* %s\n\n' % c)
    out.append('*Why the tests cannot.* %s\n\n' % p['why_tests_cant'])
out.append(open(os.path.join(T, 'design_tail.md')).read())
out.append('\n## Planted bugs and what catches them\n\n')
cat = os.path.join(T, 'caught.json')
caught = json.load(open(cat)) if os.path.exists(cat) else {}
sd = os.path.join(ROOT, 'seeded')
if os.path.isdir(sd):
    out.append('| planted bug | property | what it breaks | needs | caught by |\n|---|---|---|---|---|\n')
    for d in sorted(os.listdir(sd)):
        j = json.load(open(os.path.join(sd, d, 'meta.json')))
        out.append('| %s | %s | %s | %s | %s |\n' % (d, j['property'], j['what_it_breaks'], j['needs'], ', '.join(caught.get(d, []))))
open(os.path.join(ROOT, 'DESIGN.md'), 'w').write(''.join(out))
