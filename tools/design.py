#!/usr/bin/env python3
"""Writes DESIGN.md. Run by hand after 'sojucheck -property all -verif DIR':
design.py DIR"""
import json, os, re, sys, glob
from props import PROPS, NA
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
ev = sys.argv[1] + '/evidence/'
out = open(root + '/tools/design/head.md').read()
for q in PROPS:
    d = json.load(open(ev + q['id'] + '.json'))
    c = d['coverage']
    out += f"### {q['id']}: {q['title']}\n\n{q['statement']}\n\n"
    out += f"*Decided by* {q['technique']}. {c['explanation']}\n\n"
    out += f"*Why tests cannot:* {q['why']}\n\n"
    out += "*Rules* (obligations on the current tree):\n\n"
    for r in c['rules']:
        out += f"- `{r['rule']}` ({r['obligations']}): {r['statement']}\n"
    out += "\n"
    if d.get('assumptions'):
        out += "*Assumes:* " + "; ".join(d['assumptions']) + ".\n\n"
    if q['note']:
        out += f"*Limits:* {q['note']}\n\n"
t = open(root + '/tools/design/tail.md').read()
kf = json.load(open(root + '/known-findings.json'))
t = t.replace('@NA@', '\n'.join(f"- **{q['id']} {q['title']}**: {q['reason']}" for q in NA) or '(none)')
t = t.replace('@FIXED@', '\n'.join('- ' + re.sub(r'^fixed: property=(\S+) (\S+) ', r'\1, \2: ', s) for s in kf['fixed']))
t = t.replace('@KNOWN@', '\n'.join('- ' + json.dumps(x) if not isinstance(x, dict) else '- ' + x.get('property', '') + ': ' + x.get('what', json.dumps(x)) for x in kf['findings']) if 'findings' in kf else '')
rows = ['| file | bugs | refactorings |', '|---|---|---|']
for f in sorted(glob.glob(root + '/tests/edits/*.txt')):
    s = open(f).read()
    heads = re.findall(r'^=== \S+ (\S+)$', s, re.M)
    rows.append(f"| {os.path.basename(f)} | {sum(h != 'quiet' for h in heads)} | {sum(h == 'quiet' for h in heads)} |")
t = t.replace('@EDITS@', '\n'.join(rows))
rows = ['| bug | breaks | needs | reported by |', '|---|---|---|---|']
res = json.load(open(root + '/tools/design/caught.json'))
for d in sorted(glob.glob(root + '/seeded/*/meta.json')):
    m = json.load(open(d))
    i = os.path.basename(os.path.dirname(d))
    rows.append(f"| {i} | {m['property']}: {m['what_it_breaks']} | {m['needs']} | {res.get(i, '')} |")
t = t.replace('@SEEDS@', '\n'.join(rows))
open(root + '/DESIGN.md', 'w').write(out + t)
