"""DESIGN.md from tools/design.tmpl, properties.jsonl, vlib/levels.py, seeded/*/meta.json, known_findings.txt"""
import json, sys, os, glob
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
os.chdir(H); sys.path.insert(0, H)
from vlib.levels import LEVEL, NOTE
t = open('tools/design.tmpl').read()
ps = [json.loads(l) for l in open('properties.jsonl')]
s = ''
for p in ps:
    s += '* **%s %s** (%s). %s\n' % (p['id'], p['title'], LEVEL[p['id']], NOTE[p['id']])
t = t.replace('PROPS\n', s)
res = json.load(open('tools/seed_results.json')) if os.path.exists('tools/seed_results.json') else {}
s = '| change | property | what it breaks | caught by |\n|---|---|---|---|\n'
for d in sorted(glob.glob('seeded/*')):
    m = json.load(open(d + '/meta.json'))
    n = os.path.basename(d)
    s += '| %s | %s | %s | %s |\n' % (n, m['property'], m['what_it_breaks'].replace('|', '/'), res.get(n, '?'))
t = t.replace('SEEDS\n', s)
t = t.replace('FINDINGS', '\n'.join('* ' + l.strip() for l in open('known_findings.txt') if not l.startswith('#')))
open('DESIGN.md', 'w').write(t)
