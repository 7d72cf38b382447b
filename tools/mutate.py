#!/usr/bin/env python3
"""Applies small changes to /repo one by one and lists those that no check reports.

Only a help to find what the checks miss; nothing that is registered uses it.
usage: mutate.py BINARY OUT [substring of file names]
"""
import json, os, re, shutil, subprocess, sys, tempfile, random
from concurrent.futures import ThreadPoolExecutor

here = os.path.dirname(os.path.abspath(__file__))
binary, out = sys.argv[1], sys.argv[2]
sub = sys.argv[3] if len(sys.argv) > 3 else ''
env = dict(os.environ, GOFLAGS='-mod=mod', GOPROXY='off')
tmp = tempfile.mkdtemp(prefix='mutate.')
subprocess.check_call(['go', 'build', '-o', tmp + '/mutate', os.path.join(here, 'mutate', 'main.go')], env=env)
files = subprocess.check_output(['git', '-C', '/repo', 'ls-files', '*.go'], text=True).split()
files = [f for f in files if not f.endswith('_test.go') and 'testutils' not in f and sub in f]
muts = [json.loads(l) for l in subprocess.check_output([tmp + '/mutate'] + files, cwd='/repo', text=True).splitlines()]
skip = os.environ.get('MUTATE_SKIP', '').split(',')
muts = [m for m in muts if m['kind'] not in skip and 'log.go' not in m['file']]
random.seed(7)
random.shuffle(muts)
f = open(out, 'a')
done = set()
if os.path.getsize(out):
    for l in open(out):
        done.add(json.loads(l)['key'])
most = ','.join('P%02d' % k for k in range(1, 33) if k not in (14, 28, 29, 30))


def run(m):
    key = '%s:%d-%d:%s' % (m['file'], m['lo'], m['hi'], m['new'])
    if key in done:
        return
    d = tempfile.mkdtemp(prefix='mutant.')
    try:
        subprocess.check_call('git -C /repo archive HEAD | tar xf - -C ' + d, shell=True)
        p = os.path.join(d, m['file'])
        s = open(p, 'rb').read()
        old = s[m['lo']:m['hi']].decode()
        s = s[:m['lo']] + m['new'].encode() + s[m['hi']:]
        open(p, 'wb').write(s)
        r = subprocess.run(['go', 'build', '-trimpath', './...'], cwd=d, capture_output=True, text=True, env=dict(os.environ, GOPROXY='off'))
        if r.returncode:
            verdict, by = 'nobuild', []
        else:
            for ids in (most, 'P14'):
                r = subprocess.run(['timeout', '200', binary, '-repo', d, '-prop', ids], capture_output=True, text=True)
                if r.returncode:
                    break
            by = sorted(set(re.findall(r'^VIOLATION property=(\S+)|^(P\d\d): .* [1-9]\d* violated', r.stdout, re.M)))
            by = sorted(set(x or y for x, y in by))
            verdict = 'caught' if by else ('silent' if r.returncode == 0 else 'error%d' % r.returncode)
        m.update(key=key, old=old, verdict=verdict, by=by)
        f.write(json.dumps(m) + '\n')
        f.flush()
    finally:
        shutil.rmtree(d)


with ThreadPoolExecutor(8) as ex:
    list(ex.map(run, muts))
