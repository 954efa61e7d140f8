#!/usr/bin/env python3
"""Applies every behaviour-preserving edit of tools/refactors/*.ref (same edit
format as the seeds) to a copy of /repo and runs the checks on it: each must
stay quiet.  Usage: tryrefs.py [-p C05,C06] [name ...]"""
import os, re, shutil, subprocess, sys, json, tempfile
from concurrent.futures import ThreadPoolExecutor
V = '/verif'
ENV = dict(os.environ, HOME='/root', GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod',
           PATH='/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin')

def parse(path):
    edits, f, lines, i = [], None, open(path).read().split('\n'), 0
    while i < len(lines):
        l = lines[i]
        if l == '<<<<':
            j = lines.index('====', i); k = lines.index('>>>>', j)
            edits.append((f, '\n'.join(lines[i+1:j]), '\n'.join(lines[j+1:k])))
            i = k + 1; continue
        if l.startswith('file: '): f = l[6:]
        i += 1
    return edits

a = sys.argv[1:]; props = None
if a[:1] == ['-p']: props = a[1].split(','); a = a[2:]
names = a or sorted(x[:-4] for x in os.listdir(V + '/tools/refactors') if x.endswith('.ref'))
if not props: props = [c['property'] for c in json.load(open(V + '/MANIFEST.json'))['checks']]

def prepare(n):
    tmp = tempfile.mkdtemp(prefix='refac')
    repo = tmp + '/repo'
    subprocess.run(['git', 'clone', '-q', '/repo', repo], check=True)
    for f, old, new in parse(f'{V}/tools/refactors/{n}.ref'):
        p = repo + '/' + f
        s = open(p).read() if os.path.exists(p) else ''
        if old and s.count(old) != 1: return tmp, f'edit matches {s.count(old)} times in {f}: {old[:60]}'
        open(p, 'w').write(s.replace(old, new) if old else s + new)
    r = subprocess.run(['go', 'test', '-vet=off', '-count=1', './...'], cwd=repo, env=ENV, capture_output=True, text=True)
    return tmp, '' if r.returncode == 0 else 'tests: ' + (r.stdout + r.stderr)[-900:]

def check(tmp, p):
    # a bin directory of its own, so that runs do not share evidence files
    d = f'{tmp}/{p}'; os.makedirs(d + '/bin')
    os.link(V + '/bin/check.try', d + '/bin/check')
    shutil.copy(V + '/KNOWN_FINDINGS', d)
    os.symlink(V + '/ref', d + '/ref')
    r = subprocess.run([d + '/bin/check', '-j', '2', '-repo', tmp + '/repo', p], cwd=d, env=ENV, capture_output=True, text=True)
    out = [l for l in r.stdout.split('\n') if l.startswith(p + ' ')]
    return p, r.returncode, out, r.stdout

subprocess.run(['cp', V + '/bin/check', V + '/bin/check.try'], check=True)
bad = 0
for n in names:
    tmp, err = prepare(n)
    try:
        if err: print(n, 'INVALID', err, flush=True); continue
        with ThreadPoolExecutor(6) as ex:
            res = list(ex.map(lambda p: check(tmp, p), props))
        al = [(p, o) for p, c, o, _ in res if c]
        bad += bool(al)
        print(n, 'quiet' if not al else 'ALARMS ' + '; '.join(f'{" ".join(x[:60] for x in o)}' for p, o in al), flush=True)
    finally:
        shutil.rmtree(tmp)
print(bad, 'of', len(names), 'with alarms')
