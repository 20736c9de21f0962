#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design_head.md, the property table, the checks and seeded/ (run by hand)."""
import glob, importlib, json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
P = []


def prop(*a):
    P.append(a)


exec(open(os.path.join(HERE, 'tools', 'props.py')).read())
caught = {}
seeds = []
res = {}
rp = os.path.join(HERE, 'tools', 'plants.txt')
if os.path.exists(rp):
    for line in open(rp):
        w = line.split()
        if len(w) >= 2:
            res[w[0]] = ' '.join(w[1:])
for d in sorted(glob.glob(os.path.join(HERE, 'seeded*', '*', 'meta.json'))):
    j = json.load(open(d))
    seeds.append((j['property'], os.path.basename(os.path.dirname(d)), j))
out = open(os.path.join(HERE, 'tools', 'design_head.md')).read() + '\n## Properties\n'
for a in P:
    id, title, statement, over, text, tests, files, mech, tech, note, obs = a
    m = importlib.import_module('vf.checks.' + id.lower())
    var = {}
    for j, v in m.JOBS.items():
        var[v[1]] = var.get(v[1], 0) + 1
    out += '\n### %s - %s\n\n%s\n\n' % (id, title, statement)
    out += '* Decided by: %s.\n* Workload: %s.\n' % (tech, m.RULE.rstrip('.'))
    doc = getattr(m, 'ORACLE', None)
    if doc:
        out += '* Oracle: %s\n' % doc
    out += '* Quantified over: %s.  Jobs: %s.\n' % (text, ', '.join('%d %s' % (n, v) for v, n in sorted(var.items())))
    out += '* The monitors must have seen at least: %s.\n' % ', '.join('%s %s' % (n, k.replace('_', ' ')) for k, n in getattr(m, 'NEED', {}).items())
    out += '* Bounds and assumptions: %s%s\n' % (note, ''.join('  ' + x[0].upper() + x[1:] + '.' for x in getattr(m, 'ASSUMPTIONS', [])))
    out += '* Beyond the tests: %s\n' % tests
    s = [x for x in seeds if x[0] == id]
    if s:
        out += '* Planted: %s.\n' % ', '.join('%s (%s)' % (x[1], res.get(x[1], 'not run yet')) for x in s)
    ev = os.path.join(HERE, 'tools', 'cost.json')
    if os.path.exists(ev):
        c = json.load(open(ev)).get(id)
        if c:
            out += '* Cost: about %d s quick.\n' % c
out += '\n## Planted bugs\n\n| change | property | what it needs | result |\n|---|---|---|---|\n'
for p, n, j in seeds:
    out += '| %s | %s | %s | %s |\n' % (n, p, j['needs'].replace('|', '/'), res.get(n, 'not run yet'))
out += open(os.path.join(HERE, 'tools', 'design_tail.md')).read()
open(os.path.join(HERE, 'DESIGN.md'), 'w').write(out)
