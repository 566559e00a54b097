#!/usr/bin/env python3
"""fills the generated sections of DESIGN.md from MANIFEST.json, properties.jsonl, the evidence of the last runs and the planted bugs"""
import glob
import json
import os
import re
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
ld = lambda x: json.load(open(os.path.join(H, x)))
man = ld('MANIFEST.json')
props = {}
for l in open(os.path.join(H, 'properties.jsonl')):
    d = json.loads(l)
    props[d['id']] = d
out = []
for c in man['checks']:
    i = c['property']
    ev = ld('evidence/%s.json' % i)['coverage']
    p = props[i]
    out.append('### %s %s' % (i, p['title']))
    out.append('Method: %s.' % c['technique'].replace('static analysis: ', ''))
    out.append('Rules (the oracle):')
    out += ['* %s: %s.' % (k, v) for k, v in ev['rules'].items()]
    out.append('Bounds: %s. On the unchanged tree: %d obligations in %d functions, %d undecided; the cost is 6-60 s, extraction included.'
               % (c['level_note'], ev['obligations'], ev['functions_analysed'], ev['undecided']))
    out.append('Beyond the tests: %s.' % p['why_tests_cant'])
    out.append('')
sd = ['| bug | property | needs | breaks | caught by |', '|---|---|---|---|---|']
caught = ld('tools/caught.json')
for m in sorted(glob.glob(os.path.join(H, 'seeded', '*', 'meta.json'))):
    b = os.path.basename(os.path.dirname(m))
    d = json.load(open(m))
    sd.append('| %s | %s | %s | %s | %s |' % (b, d['property'], d['needs'], d['what_it_breaks'], caught.get(b, '-')))
f = os.path.join(H, 'DESIGN.md')
s = open(f).read()
for k, v in (('PROPS', out), ('SEEDED', sd)):
    s = re.sub(r'<!-- %s -->.*?<!-- END -->' % k, lambda _: '<!-- %s -->\n%s\n<!-- END -->' % (k, '\n'.join(v)), s, flags=re.S)
open(f, 'w').write(s)
