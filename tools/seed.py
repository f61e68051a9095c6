#!/usr/bin/env python3
"""Development tool: confirm a planted bug.  seed.py ID [--quick] < edits   (or no stdin: use patch.diff)
edits: blocks  FILE path / <<<< / old / ==== / new / >>>>"""
import json
import os
import re
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = '/repo'


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def demo(d):
    r = sh(f'bash {d}/demo.sh', cwd=R, timeout=300)
    return r.returncode, (r.stdout + r.stderr)[-300:]


def main():
    sid = sys.argv[1]
    d = f'{V}/seeded/{sid}'
    meta = json.load(open(f'{d}/meta.json'))
    assert not sh('git status --short', cwd=R).stdout.strip(), 'repo dirty'
    if not os.path.exists(f'{d}/demo.sh'):
        open(f'{d}/demo.sh', 'w').write('#!/bin/bash\nexec /opt/vp/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
    print('clean demo', demo(d))
    try:
        txt = '' if sys.stdin.isatty() else sys.stdin.read()
        if txt.strip():
            for m in re.finditer(r'FILE (\S+)\n<<<<\n(.*?)\n====\n(.*?)\n?>>>>', txt, re.S):
                p = f'{R}/{m[1]}'
                s = open(p).read()
                assert s.count(m[2]) == 1, (m[1], s.count(m[2]), m[2])
                open(p, 'w').write(s.replace(m[2], m[3]))
            diff = sh('git diff', cwd=R).stdout
            open(f'{d}/patch.diff', 'w').write(diff)
        else:
            r = sh(f'git apply {d}/patch.diff', cwd=R)
            assert r.returncode == 0, r.stderr
        print('patched demo', demo(d))
        if '--quick' not in sys.argv:
            sh('bash /opt/vp/build.sh')
            print('build+test', sh('bash /opt/vp/test.sh /tmp/seed_out.json').returncode)
            b = json.load(open('/opt/vp/BASELINE.json'))
            base = set(b.get('stable') or b.get('passed') or [])
            got = set(json.load(open('/tmp/seed_out.json'))['passed'])
            print('stable', len(base), 'lost', sorted(base - got)[:5])
            print('demo after build', demo(d)[0])
        r = sh(f'python3 check.py {meta["property"]}', cwd=V)
        print('check', r.returncode, [x[:220] for x in r.stdout.splitlines() if 'VIOL' in x][:4])
    finally:
        sh('git checkout -- .', cwd=R)
        if '--quick' not in sys.argv:
            sh('bash /opt/vp/build.sh')


main()
