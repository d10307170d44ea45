#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from table.py."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
import table
root = os.path.dirname(here)

TECHNIQUE = ('symbolic execution of the real source with z3: values, choices and texts are symbolic, all feasible paths are '
             'explored within the bounds, every assertion is decided by the solver; counterexamples are replayed on the uninstrumented code')
na = {n['property'] for n in table.NOT_APPLICABLE}
with open(os.path.join(root, 'properties.jsonl'), 'w') as f:
    for p in table.PROPS:
        a = dict(files=p['files'], mechanism=p['mechanism'])
        if p['observe']:
            a['observe_at'] = p['observe']
        f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'],
            quantifier=dict(over=p['over'], text=p['quant']), why_tests_cant=p['why'], anchors=a)) + '\n')
        assert len(p['title']) <= 80, p['title']
checks = [dict(property=p['id'], quick_cmd='./run.sh %s --tier quick' % p['id'],
               thorough_cmd='./run.sh %s --tier thorough' % p['id'], technique=TECHNIQUE, level='other',
               level_note='Bounded symbolic execution, every path and every value within: ' + p['note'])
          for p in table.PROPS if p['id'] not in na]
manifest = dict(version=1, setup_cmd='true', checks=checks, not_applicable=table.NOT_APPLICABLE)
with open(os.path.join(root, 'MANIFEST.json'), 'w') as f:
    json.dump(manifest, f, indent=1)
    f.write('\n')


# ---------------------------------------------------------------- DESIGN.md
import ast
import seeds
import subprocess


def harnesses(pid):
    d = os.path.join(root, 'props')
    for f in sorted(os.listdir(d)):
        if f.startswith(pid.lower()):
            for n in ast.parse(open(os.path.join(d, f)).read()).body:
                if isinstance(n, ast.FunctionDef):
                    for c in n.decorator_list:
                        if isinstance(c, ast.Call) and getattr(c.func, 'id', '') == 'harness':
                            b = [k.value for k in c.keywords if k.arg == 'bounds']
                            b = b[0].value if b and isinstance(b[0], ast.Constant) else ''
                            yield n.name, ' '.join((ast.get_docstring(n) or '').split()), b


out = []
for p in table.PROPS:
    out.append('### %s %s\n' % (p['id'], p['title']))
    out.append(p['statement'] + '\n')
    if p['id'] in na:
        out.append('Not applicable: ' + [n['reason'] for n in table.NOT_APPLICABLE if n['property'] == p['id']][0] + '\n')
        continue
    if p['id'] in table.METHOD:
        out.append(table.METHOD[p['id']] + '\n')
    out.append('Bounds: %s. Beyond tests: %s.\n' % (p['note'], p['why']))
    for name, doc, b in harnesses(p['id']):
        out.append('* `%s`: %s%s' % (name, doc, ' (%s)' % b if b else ''))
    out.append('')
sd = ['Every one passes the existing tests and has a demonstration; `tools/mkseed.py --check` verifies that and runs the check of its property.', '',
      '| id | property | needs | caught by |', '|---|---|---|---|']
for s in seeds.SEEDS:
    sd.append('| %s | %s | %s | %s |' % (s['id'], s['property'], s['needs'].replace('|', '/'), seeds.CAUGHT.get(s['id'], s['property'])))
t = open(os.path.join(here, 'design.md')).read()
t = t.replace('@@PROPS@@', '\n'.join(out)).replace('@@SEEDS@@', '\n'.join(sd))
with open(os.path.join(root, 'DESIGN.md'), 'w') as f:
    f.write(t)
