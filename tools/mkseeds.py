#!/usr/bin/env python3
"""Builds seeded/<id>/ from tools/seeds/*.seed and confirms every one of them.

A .seed file: header lines "key: value" (property, needs, breaks, file), then
sections  <<<<  old  ====  new  >>>>  (edits, each preceded by an optional
"file:" line) and after a line "demo:" the Go main package.
Usage: mkseeds.py [id ...]       build and confirm
       mkseeds.py -check [id..]  also run the property's check on each
"""
import os, re, shutil, subprocess, sys, json, tempfile
V = '/verif'
ENV = dict(os.environ, HOME='/root', GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod',
           GOCACHE='/root/.cache/go-build', GOMODCACHE='/root/go/pkg/mod',
           PATH='/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin')
DEMO = '''#!/bin/bash
# Runs main.go inside the repository in the current directory; exit 0 if it behaves as it should.
set -u
here=$(cd "$(dirname "$0")" && pwd)
export HOME=/root PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOCACHE=/root/.cache/go-build GOMODCACHE=/root/go/pkg/mod
tmp=$(mktemp -d) || exit 1
trap 'rm -rf "$tmp"' EXIT
printf '{"Replace":{"%s/zzdemo/main.go":"%s/main.go","%s/zzdemo/lib.go":"%s/lib.go"}}' "$PWD" "$here" "$PWD" "$here" > "$tmp/o.json"
go build -overlay "$tmp/o.json" -o "$tmp/demo" ./zzdemo || exit 1
timeout 100 "$tmp/demo"
'''

def parse(path):
    s = open(path).read()
    head, demo = s.split('\ndemo:\n', 1)
    meta, edits, f = {}, [], None
    pos = 0
    for m in re.finditer(r'^(\w+): (.*)$|^<<<<\n(.*?)^====\n(.*?)^>>>>$', head, re.M | re.S):
        pass
    lines = head.split('\n'); i = 0
    while i < len(lines):
        l = lines[i]
        if l == '<<<<':
            j = lines.index('====', i); k = lines.index('>>>>', j)
            edits.append((f, '\n'.join(lines[i+1:j]), '\n'.join(lines[j+1:k])))
            i = k + 1; continue
        m = re.match(r'(\w+): (.*)', l)
        if m:
            if m[1] == 'file': f = m[2]
            else: meta[m[1]] = m[2]
        i += 1
    return meta, edits, demo

def run(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, env=ENV, capture_output=True, text=True, **k)

def build(id, check):
    meta, edits, demo = parse(f'{V}/tools/seeds/{id}.seed')
    tmp = tempfile.mkdtemp(prefix='seed')
    try:
        repo = tmp + '/repo'
        subprocess.run(['git', 'clone', '-q', '/repo', repo], check=True)
        d = f'{V}/seeded/{id}'
        os.makedirs(d, exist_ok=True)
        open(d + '/demo.sh', 'w').write(DEMO); os.chmod(d + '/demo.sh', 0o755)
        open(d + '/main.go', 'w').write(demo)
        shutil.copy(f'{V}/tools/seeds/lib.go.txt', d + '/lib.go')
        json.dump({'property': meta['property'], 'needs': meta['needs'], 'what_it_breaks': meta['breaks']},
                  open(d + '/meta.json', 'w'), indent=1)
        r = run(['bash', d + '/demo.sh'], repo)
        if r.returncode: return f'demo fails on the unchanged tree: {r.stdout[-800:]}{r.stderr[-800:]}'
        out0 = r.stdout
        for f, old, new in edits:
            p = repo + '/' + f; s = open(p).read()
            if s.count(old) != 1: return f'edit matches {s.count(old)} times in {f}: {old[:60]}'
            open(p, 'w').write(s.replace(old, new))
        open(d + '/patch.diff', 'w').write(run(['git', 'diff'], repo).stdout)
        r = run(['go', 'build', './...'], repo)
        if r.returncode: return 'does not build: ' + r.stderr[-600:]
        r = run(['go', 'vet', './beatmap/...', './performance/...'], repo)
        r = run(['go', 'test', '-vet=off', '-count=1', './...'], repo)
        if r.returncode: return 'breaks the tests: ' + r.stdout[-600:]
        r = run(['bash', d + '/demo.sh'], repo)
        if r.returncode == 0: return 'demo passes with the change: ' + r.stdout[-300:]
        msg = 'ok (' + (r.stdout + r.stderr).strip()[-150:].replace('\n', ' | ') + ')'
        if check:
            for p in [meta['property']] + [x for x in meta.get('also', '').split() if x]:
                e = dict(ENV, VERIF_SEED='1', VERIF_TIER='quick')
                r = subprocess.run([V + '/bin/check', '-repo', repo, p], cwd=V, env=e, capture_output=True, text=True)
                v = [l for l in r.stdout.split('\n') if l.startswith('VIOLATION')]
                msg += f'\n      {p}: exit {r.returncode} ' + (v[0][:150] if v else 'MISSED ' + r.stdout[-200:])
        return msg
    finally:
        shutil.rmtree(tmp)

a = sys.argv[1:]; check = '-check' in a; a = [x for x in a if x != '-check']
ids = a or sorted(x[:-5] for x in os.listdir(V + '/tools/seeds') if x.endswith('.seed'))
from concurrent.futures import ThreadPoolExecutor
with ThreadPoolExecutor(4) as ex:
    for id, r in zip(ids, ex.map(lambda i: build(i, check), ids)):
        print(id, r, flush=True)
