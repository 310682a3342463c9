"""Regenerates and confirms /verif/seeded from the list below (uses a scratch copy of /repo under /tmp).
usage: seeds.py [id ...]      write + confirm      seeds.py --checks [id ...]   also run the check of the property"""
import json
import os
import shutil
import subprocess
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'tools'))
from seedlist import SEEDS
BASE = '7e39581'
HEAD = 'import sys, os, tempfile, io, contextlib\nsys.path.insert(0, os.getcwd())\nsys.dont_write_bytecode = True\nsys.pycache_prefix = "/nonexistent/pycache"\n'


def sh(cmd, cwd=None, env=None):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, env=env)


def main():
    args = sys.argv[1:]
    checks = '--checks' in args
    args = [a for a in args if not a.startswith('--')]
    work = '/tmp/seedwork'
    shutil.rmtree(work, ignore_errors=True)
    shutil.copytree('/repo', work, symlinks=True)
    missed = []
    for s in SEEDS:
        if args and s['id'] not in args:
            continue
        sh('git checkout -q -- .', work)
        for path, old, new in s['edits']:
            p = os.path.join(work, 'necroassembler', path)
            text = open(p).read()
            n = s.get('count', 1)
            assert text.count(old) == n, (s['id'], path, text.count(old), old)
            open(p, 'w').write(text.replace(old, new))
        diff = sh('git diff', work).stdout
        # removed lines must be lines of the original repository
        for l in diff.splitlines():
            if l.startswith('-') and not l.startswith('---') and l[1:].strip():
                hit = False
                for path, _, _ in s['edits']:
                    hit = hit or l[1:] in sh('git show %s:necroassembler/%s' % (BASE, path), work).stdout.splitlines()
                if not hit:
                    print(s['id'], 'NOT AN ORIGINAL LINE:', l)
        d = os.path.join(HERE, 'seeded', s['id'])
        os.makedirs(d, exist_ok=True)
        open(d + '/patch.diff', 'w').write(diff)
        open(d + '/demo.py', 'w').write(HEAD + s['demo'].strip('\n') + '\n')
        open(d + '/demo.sh', 'w').write('#!/bin/sh\nexec python3 "$(cd "$(dirname "$0")" && pwd)/demo.py"\n')
        os.chmod(d + '/demo.sh', 0o755)
        json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        good = sh('sh %s/demo.sh' % d, '/repo')
        bad = sh('sh %s/demo.sh' % d, work)
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1')
        t = sh('/opt/venv/bin/python -m pytest -q tests -p no:cacheprovider 2>&1 | tail -1', work, env)
        msg = 'good=%d bad=%d tests=%s' % (good.returncode, bad.returncode, t.stdout.strip())
        ok = good.returncode == 0 and bad.returncode != 0 and 'failed' not in t.stdout and 'error' not in t.stdout
        print(s['id'], s['prop'], 'OK' if ok else 'NOT OK', msg)
        if not ok:
            print((good.stderr + good.stdout)[-800:], '\n---\n', (bad.stderr + bad.stdout)[-600:], t.stdout)
        if checks:
            r = sh('NV_REPO=%s python3 run.py %s' % (work, s['prop']), HERE)
            caught = r.returncode == 1 and 'VIOLATION property=' + s['prop'] in r.stdout
            print('   check:', 'caught' if caught else 'MISSED rc=%d %s' % (r.returncode, (r.stdout + r.stderr)[-300:]))
            if not caught:
                missed.append(s['id'])
    shutil.rmtree(work, ignore_errors=True)
    if missed:
        print('MISSED', missed)


main()
