#!/usr/bin/env python3
"""mkseed.py SPEC.py : turn planted-bug specifications into /verif/seeded/<id>/ after confirming them
in a scratch copy of /repo.  SPEC.py defines BUGS = [dict(id,property,needs,what,edits=[(file,old,new)],demo=go source, env='', race=False)]"""
import sys, os, subprocess, json, shutil, tempfile
spec = {}
exec(open(sys.argv[1]).read(), spec)
only = sys.argv[2:]
ENV = dict(os.environ, GOTOOLCHAIN='local', GOFLAGS='-mod=mod', GOPROXY='off', GOWORK='off', GOSUMDB='off')
BASE = json.load(open('/opt/vp/BASELINE.json'))
PRE = '''package main

import (
	"fmt"
	"os"
%s)

func fail(f string, a ...any) { fmt.Printf(f+"\\n", a...); os.Exit(1) }

type E struct {
	id int
	h  uintptr
}

func (e E) Equal(f E) bool           { return e.id == f.id }
func (e E) Hash(seed uintptr) uintptr { return e.h }
func (e E) String() string           { return fmt.Sprint(e.id) }

'''
SH = '''#!/bin/bash
# exit 0: behaves as it should; non-zero: the property is broken
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOWORK=off GOSUMDB=off
work=$(mktemp -d) || exit 3
trap 'rm -rf "$work"' EXIT
cp "$here/demo.go.txt" "$work/main.go"
cp "$repo/go.sum" "$work/go.sum"
printf 'module demo\\n\\ngo 1.22\\n\\nrequire github.com/arr-ai/frozen v0.0.0\\n\\nreplace github.com/arr-ai/frozen => %%s\\n' "$repo" > "$work/go.mod"
cd "$work" || exit 3
%sgo build %s-o demo . || exit 3
%stimeout %d ./demo
'''
def run(cmd, **k): return subprocess.run(cmd, capture_output=True, text=True, **k)

def tests(repo):
    out = tempfile.mktemp()
    sh = open('/opt/vp/test.sh').read().replace('cd /repo', 'cd ' + repo)
    f = tempfile.mktemp(); open(f, 'w').write(sh)
    r = run(['bash', f, out], env=ENV)
    d = json.load(open(out)); os.unlink(out); os.unlink(f)
    return d

for b in spec['BUGS']:
    if only and b['id'] not in only: continue
    scratch = '/tmp/seedscratch-%d' % os.getpid()
    if os.path.exists(scratch): shutil.rmtree(scratch)
    shutil.copytree('/repo', scratch, symlinks=True)
    try:
        ok = True
        for f, old, new in b['edits']:
            p = os.path.join(scratch, f); s = open(p).read()
            if s.count(old) != 1: print(b['id'], 'edit does not match once in', f, s.count(old)); ok = False; break
            open(p, 'w').write(s.replace(old, new))
        if not ok: continue
        diff = run(['git', '-C', scratch, 'diff']).stdout
        d = '/verif/seeded/' + b['id']
        tmp = tempfile.mkdtemp()
        src = b['demo']
        imps = b.get('imports', ['github.com/arr-ai/frozen'])
        if not src.startswith('package'): src = PRE % ''.join('\t"%s"\n' % i for i in imps) + src
        open(tmp + '/demo.go.txt', 'w').write(src)
        race = b.get('race')
        open(tmp + '/demo.sh', 'w').write(SH % ('CGO_ENABLED=1 ' if race else '', '-race ' if race else '', (b.get('env', '') + ' ') if b.get('env') else '', b.get('timeout', 120)))
        open(tmp + '/patch.diff', 'w').write(diff)
        json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['what']}, open(tmp + '/meta.json', 'w'), indent=1)
        r0 = run(['bash', tmp + '/demo.sh'], cwd='/repo', env=ENV)
        r1 = run(['bash', tmp + '/demo.sh'], cwd=scratch, env=ENV)
        bl = run(['go', 'build', './...'], cwd=scratch, env=ENV)
        msg = 'demo clean=%d patched=%d build=%d' % (r0.returncode, r1.returncode, bl.returncode)
        if r0.returncode != 0: print(r0.stdout[-500:], r0.stderr[-1500:])
        if r1.returncode in (0, 3): print('PATCHED', r1.stdout[-500:], r1.stderr[-500:])
        good = r0.returncode == 0 and r1.returncode not in (0, 3) and bl.returncode == 0
        if good:
            t = tests(scratch)
            stable = BASE if isinstance(BASE, list) else BASE.get('stable') or BASE.get('tests') or BASE.get('passed') or list(BASE)
            res = t.get('passed') or t
            miss = [x for x in stable if x not in res] if not isinstance(res, dict) else [x for x in stable if res.get(x) not in (True, 'pass', 'passed')]
            msg += ' stable tests missing: %d %s' % (len(miss), miss[:4])
            good = not miss
        print(b['id'], 'OK' if good else 'REJECTED', msg, '|', (r1.stdout + r1.stderr).strip().splitlines()[:1])
        if good:
            if os.path.exists(d): shutil.rmtree(d)
            shutil.copytree(tmp, d)
        shutil.rmtree(tmp)
    finally: shutil.rmtree(scratch)
