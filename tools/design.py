"""Writes DESIGN.md: tools/design_head.md, one section per property made of the registrations of the checks and of
tools/properties.py, and tools/design_tail.md."""
import importlib
import json
import os
import pkgutil
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.path[:0] = [HERE, os.path.join(HERE, 'tools')]
import gbmon.checks    # noqa: E402
import gbmon.core as core    # noqa: E402
import gbmon.stubs    # noqa: E402
import first_missed    # noqa: E402
import properties    # noqa: E402

core.setup_imports()
gbmon.stubs.install()
gbmon.stubs.install_language()
gbmon.stubs.install_corpus()
for m in pkgutil.iter_modules(gbmon.checks.__path__):
    importlib.import_module('gbmon.checks.' + m.name)

out = [open(os.path.join(HERE, 'tools', 'design_head.md')).read()]
out.append('## The properties, and how each one is decided\n')
for p in properties.P:
    c = core.CHECKS[p['id']]
    out.append('### %s. %s\n' % (p['id'], p['title']))
    out.append('%s\n' % p['statement'])
    out.append('- Over: %s (%s)' % (p['text'], ', '.join(p['over'])))
    out.append('- Decided by: %s. %s' % (p['technique'], c.rule))
    out.append('- Cases: %s.' % '; '.join('%s (%s; quick %d, thorough %d)' % (n, k.what, k.quick, k.thorough)
                                          for n, k in c.kinds.items()))
    out.append('- Inconclusive unless it observed: %s.' % (', '.join(c.need) or 'at least two distinct cases'))
    for a in c.assumptions:
        out.append('- Assumes: %s.' % a)
    out.append('- Why tests cannot: %s' % p['tests'])
    out.append('- Level: %s. %s\n' % (p['level'], p['note']))
assert sorted(core.CHECKS) == sorted(p['id'] for p in properties.P)
out.append(open(os.path.join(HERE, 'tools', 'design_tail.md')).read())
out.append('''## Planted bugs

Each one is in `seeded/<name>/`; it is caught by the quick check of the property that is named, with seed 1 (other
checks often report it too). "Missed at first": the check was made stronger because of it.
''')
out.append('| name | property | what it needs | what it breaks | missed at first |')
out.append('|---|---|---|---|---|')
names = sorted(os.listdir(os.path.join(HERE, 'seeded'))) if os.path.isdir(os.path.join(HERE, 'seeded')) else []
for n in names:
    with open(os.path.join(HERE, 'seeded', n, 'meta.json')) as f:
        m = json.load(f)
    out.append('| %s | %s | %s | %s | %s |' % tuple(str(x).replace('|', '/') for x in (
        n, m['property'], m['needs'], m['what_it_breaks'], first_missed.MISSED.get(n, ''))))
assert set(first_missed.MISSED) <= set(names), set(first_missed.MISSED) - set(names)
with open(os.path.join(HERE, 'DESIGN.md'), 'w') as f:
    f.write('\n'.join(out))
