#!/usr/bin/env python3
"""Rewrites a copy of the repository in ways that keep its behaviour and runs
all checks on it: refactor.py [-s SEEDS] [KIND...]. Everything that fires is a
false alarm (or a rewriting that is not one)."""
import subprocess, sys, re, os, shutil, tempfile, argparse
from concurrent.futures import ThreadPoolExecutor
ap = argparse.ArgumentParser()
ap.add_argument('-s', type=int, default=1)
ap.add_argument('-first', type=int, default=0)
ap.add_argument('-p', default='all')
ap.add_argument('-j', type=int, default=4)
ap.add_argument('-keep', action='store_true')
ap.add_argument('-notest', action='store_true')
ap.add_argument('-only', default='')
ap.add_argument('-part', default='')
ap.add_argument('kinds', nargs='*')
a = ap.parse_args()
TOOL = os.environ.get('TOOL', '/tmp/sc'); RF = os.environ.get('REFACTOR', '/tmp/refactor')
ENV = dict(os.environ, HOME='/root', GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod', CGO_ENABLED='1')
kinds = a.kinds or subprocess.run([RF], capture_output=True, text=True).stdout.split()
def sh(cmd, cwd=None, t=600):
    r = subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, env=ENV, timeout=t)
    return r.returncode, r.stdout + r.stderr
def funcs(path):
    out = []
    for i, l in enumerate(open(path), 1):
        m = re.match(r'func (\([^)]*\) )?(\w+)', l)
        if m: out.append((i, m.group(2)))
    return out
def one(job):
    kind, seed = job
    d = tempfile.mkdtemp(prefix='rf-%s-%d-' % (kind, seed)); repo = d + '/repo'
    notf = set(); log = []
    try:
        for attempt in range(12):
            if os.path.exists(repo): shutil.rmtree(repo)
            shutil.copytree('/repo', repo, symlinks=True)
            cmd = [RF, '-t', kind, '-seed', str(seed), '-repo', repo]
            if a.only: cmd += ['-only', a.only]
            if a.part: cmd += ['-part', a.part]
            if notf: cmd += ['-not', '\\.(' + '|'.join(sorted(notf)) + ')$']
            rc, o = sh(cmd)
            places = o.strip().splitlines()[-1] if o.strip() else '?'
            rc, o = sh(['go', 'build', '-gcflags=-e', '-o', d + '/bin/', './...'], repo) if os.makedirs(d + '/bin', exist_ok=True) is None else None
            if rc == 0: break
            n = len(notf)
            for f, ln in re.findall(r'^(?:vet: )?(\S+\.go):(\d+):', o, re.M):
                fs = [x for x in funcs(os.path.join(repo, f)) if x[0] <= int(ln)]
                if fs:
                    nm = re.sub(r'(Inner|Part[a-z]*\d+x)$', '', fs[-1][1]); notf.add(nm)
            if len(notf) == n: return f'{kind}/{seed}: does not build: {o[:400]}'
        else: return f'{kind}/{seed}: does not build'
        if not a.notest:
            rc, o = sh(['go', 'test', './...'], repo)
            if rc: log.append('  TESTS FAIL ' + ' '.join(re.findall(r'--- FAIL: (\S+)', o))[:300])
        os.makedirs(d + '/v'); shutil.copy('/verif/known-findings.json', d + '/v')
        rc, o = sh([TOOL, '-property', a.p, '-repo', repo, '-verif', d + '/v'], t=900)
        fired = re.findall(r'VIOLATION property=(C\d+)', o)
        for m in re.finditer(r'^(C\d+): |^rule=.*\n.*$', o, re.M):
            s = m.group(0)
            if s.startswith('rule='): log.append('  ' + s.replace('\n', '\n  '))
        if not re.search(r'^C\d+: ', o, re.M): log.append('  NO ANSWER ' + o[-500:])
        return f'{kind}/{seed}: {places}, skipped {len(notf)}, fired: {" ".join(fired) or "-"}\n' + '\n'.join(log)
    finally:
        if a.keep and os.path.exists(repo): print('kept', repo)
        else: shutil.rmtree(d)
jobs = [(k, s) for s in range(a.first, a.first + a.s) for k in kinds]
with ThreadPoolExecutor(a.j) as ex:
    for r in ex.map(one, jobs): print(r, flush=True)
