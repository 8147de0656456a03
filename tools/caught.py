#!/usr/bin/env python3
"""Runs the analyzer on every planted bug and writes tools/design/caught.json."""
import json, os, re, subprocess, shutil, glob, tempfile
from concurrent.futures import ThreadPoolExecutor
root = os.path.abspath(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
tool = os.environ.get('TOOL', '/tmp/sc')
def one(d):
    i = os.path.basename(d)
    t = tempfile.mkdtemp(prefix='caught')
    try:
        subprocess.run(['git', 'clone', '-q', '--shared', '/repo', t + '/repo'], check=True)
        subprocess.run(['git', '-C', t + '/repo', 'apply', d + '/patch.diff'], check=True)
        os.mkdir(t + '/v'); shutil.copy(root + '/known-findings.json', t + '/v')
        o = subprocess.run([tool, '-property', 'all', '-repo', t + '/repo', '-verif', t + '/v'], capture_output=True, text=True).stdout
        cur, hits = None, []
        rules = []
        for line in o.splitlines():
            m = re.match(r'^(C\d+): ', line)
            if m: cur = m.group(1)
            m = re.match(r'^rule=(\S+)', line)
            if m and (cur, m.group(1)) not in hits: hits.append((cur, m.group(1)))
        return i, ', '.join(f'{a} `{b}`' for a, b in hits) or 'missed'
    finally:
        shutil.rmtree(t)
with ThreadPoolExecutor(4) as ex:
    res = dict(ex.map(one, sorted(glob.glob(root + '/seeded/*'))))
json.dump(res, open(root + '/tools/design/caught.json', 'w'), indent=1, sort_keys=True)
for k, v in sorted(res.items()): print(k, '->', v)
