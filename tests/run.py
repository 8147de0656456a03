#!/usr/bin/env python3
"""Regression suite of the analyzer itself: applies each small edit of
tests/edits/*.txt to a scratch copy of /repo and checks which properties react.

Edit file format, repeated blocks:
  === NAME PROP[,PROP..]|quiet
  @@ file
  <<<<
  old
  ====
  new
  >>>>
"quiet" edits keep behaviour: every property must stay silent.
Usage: run.py [-p PROP] [-k substring] [--build] [--allprops]
"""
import sys, os, re, subprocess, shutil, tempfile, json, concurrent.futures as cf
HERE = os.path.dirname(os.path.abspath(__file__))
def parse(path):
    cases = []
    cur = None; lines = open(path).read().split('\n'); i = 0
    while i < len(lines):
        l = lines[i]
        if l.startswith('=== '):
            _, name, exp = l.split(' ', 2)
            cur = {'name': name, 'exp': exp.strip(), 'edits': []}; cases.append(cur)
        elif l.startswith('@@ '):
            f = l[3:].strip(); i += 1
            assert lines[i] == '<<<<', (path, i, lines[i])
            i += 1; old = []
            while lines[i] != '====': old.append(lines[i]); i += 1
            i += 1; new = []
            while lines[i] != '>>>>': new.append(lines[i]); i += 1
            cur['edits'].append((f, '\n'.join(old), '\n'.join(new)))
        i += 1
    return cases
def run(case, tool, props, build):
    d = tempfile.mkdtemp(prefix='sjmut')
    try:
        repo = d + '/repo'
        shutil.copytree('/repo', repo, ignore=shutil.ignore_patterns('.git'))
        for f, old, new in case['edits']:
            p = repo + '/' + f
            s = open(p).read()
            if s.count(old) != 1:
                return case, 'EDIT-FAILS (%d matches) %s' % (s.count(old), f), []
            open(p, 'w').write(s.replace(old, new))
        if build:
            r = subprocess.run('GOFLAGS=-mod=mod go vet ./... >/dev/null 2>&1; GOFLAGS=-mod=mod go build ./...', shell=True, cwd=repo, capture_output=True, text=True)
            if r.returncode: return case, 'BUILD-FAILS ' + r.stderr[:300], []
        os.makedirs(d + '/v')
        kf = os.path.join(HERE, '..', 'known-findings.json')
        if os.path.exists(kf): shutil.copy(kf, d + '/v/')
        r = subprocess.run([tool, '-property', props, '-repo', repo, '-verif', d + '/v'], capture_output=True, text=True)
        fired = re.findall(r'VIOLATION property=(\w+)', r.stdout)
        return case, r.stdout, fired
    finally:
        shutil.rmtree(d)
def main():
    a = sys.argv[1:]
    prop = None; k = ''; build = False; files = []; allp = False; verbose = False
    while a:
        x = a.pop(0)
        if x == '-p': prop = a.pop(0)
        elif x == '-k': k = a.pop(0)
        elif x == '--build': build = True
        elif x == '--allprops': allp = True
        elif x == '-v': verbose = True
        else: files.append(x)
    if not files:
        ed = os.path.join(HERE, 'edits'); files = sorted(os.path.join(ed, f) for f in os.listdir(ed))
    tool = os.environ.get('TOOL', '/tmp/sc')
    cases = [c for f in files for c in parse(f)]
    cases = [c for c in cases if k in c['name']]
    if prop: cases = [c for c in cases if c['exp'] == 'quiet' or prop in c['exp'].split(',')]
    bad = 0
    with cf.ThreadPoolExecutor(5) as ex:
        futs = []
        for c in cases:
            if prop: ps = prop
            elif c['exp'] == 'quiet' or allp: ps = 'all'
            else: ps = c['exp']
            futs.append(ex.submit(run, c, tool, ps, build))
        for f in futs:
            c, out, fired = f.result()
            if c['exp'] == 'quiet': ok = not fired and 'FAILS' not in out
            else: ok = any(e in fired for e in c['exp'].split(','))
            if not ok: bad += 1
            if not ok or verbose:
                print('%s %s expect=%s fired=%s' % ('ok  ' if ok else 'FAIL', c['name'], c['exp'], ','.join(fired)))
                if not ok: print("    " + ('\n'.join(re.findall(r'rule=[^\n]*\n[^\n]*', out))[:1500] or out[:700]).replace('\n', '\n    '))
    print('%d cases, %d wrong' % (len(cases), bad))
    sys.exit(1 if bad else 0)
main()
