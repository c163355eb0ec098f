#!/usr/bin/env python3
"""Maintain /verif/seeded (no check uses it).

seeded.py new DEFS.py [ID...]   create and confirm the bugs defined in DEFS.py
seeded.py confirm [ID...]       patch applies, tests pass, demo decides
seeded.py catch [ID...]         run the quick check of each bug's property
                                (and write seeded/RESULTS.md)

Everything happens on a scratch copy of /repo except the runs of the tests and
the checks, which need /repo itself: the patch is undone straight afterwards.
"""
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(VERIF, 'seeded')
BASE = 'a16f29d'


def sh(*a, **k):
    return subprocess.run(a, capture_output=True, text=True, **k)


def demo(d, expect):
    t = tempfile.mkdtemp(prefix='demo-')
    try:
        for f in os.listdir(d):
            if f != 'meta.json' and not f.endswith('.diff'):
                shutil.copy(os.path.join(d, f), t)
        p = sh('bash', f'{t}/demo.sh', cwd='/repo', timeout=300,
               env={k: v for k, v in os.environ.items() if 'VERIF' not in k})
        return (p.returncode == 0) == expect, p.stdout[-600:] + p.stderr[-600:]
    finally:
        shutil.rmtree(t)


def clean():
    assert not sh('git', '-C', '/repo', 'status', '--porcelain').stdout


def confirm(i):
    d = os.path.join(SEEDED, i)
    clean()
    ok, out = demo(d, True)
    if not ok:
        return f'demo fails on the unchanged tree: {out}'
    p = sh('git', '-C', '/repo', 'apply', f'{d}/patch.diff')
    if p.returncode:
        return 'patch does not apply: ' + p.stderr
    try:
        p = sh('bash', '/opt/vp/build.sh')
        if p.returncode:
            return 'does not build' + p.stderr
        sh('bash', '/opt/vp/test.sh', '/tmp/seed-out.json')
        with open('/tmp/seed-out.json') as f:
            r = json.load(f)
        with open('/opt/vp/BASELINE.json') as f:
            b = json.load(f)
        b = b if isinstance(b, list) else next(
            v for k, v in b.items() if isinstance(v, list) and len(v) > 100)
        bad = set(b) - set(r['passed'])
        if bad:
            return f'tests fail: {sorted(bad)[:4]}'
        ok, out = demo(d, False)
        if not ok:
            return f'demo passes with the patch: {out}'
    finally:
        sh('git', '-C', '/repo', 'checkout', '--', '.')
    return None


def new(defs, ids):
    bugs = runpy.run_path(defs)['BUGS']
    for b in bugs:
        if ids and b['id'] not in ids:
            continue
        d = os.path.join(SEEDED, b['id'])
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        clean()
        why = None
        for f, old, repl in b['edits']:
            p = os.path.join('/repo/src/mdpo', f)
            with open(p) as fh:
                s = fh.read()
            if s.count(old) != 1:
                why = f'{s.count(old)} times: {old!r}'
                break
            with open(p, 'w') as fh:
                fh.write(s.replace(old, repl))
        diff = sh('git', '-C', '/repo', 'diff').stdout
        sh('git', '-C', '/repo', 'checkout', '--', '.')
        if why:
            print(b['id'], 'NOT MADE', why)
            shutil.rmtree(d)
            continue
        with open(f'{d}/patch.diff', 'w') as fh:
            fh.write(diff)
        # removed lines must be original ones
        base_lines = set(sh('git', '-C', '/repo', 'grep', '-h', '', BASE, '--',
                            'src').stdout.splitlines())
        removed = [x[1:] for x in diff.splitlines()
                   if x.startswith('-') and not x.startswith('---')]
        if not removed or any(x not in base_lines for x in removed):
            print(b['id'], 'WARNING: removed lines not original:',
                  [x for x in removed if x not in base_lines])
        with open(f'{d}/demo.sh', 'w') as fh:
            fh.write('#!/bin/bash\nexec /opt/venv/bin/python '
                     '"$(dirname "$0")/demo.py"\n')
        with open(f'{d}/demo.py', 'w') as fh:
            fh.write(HEAD + b['demo'].strip() + '\n')
        with open(f'{d}/meta.json', 'w') as fh:
            json.dump({'property': b['property'], 'needs': b['needs'],
                       'what_it_breaks': b['breaks']}, fh, indent=1,
                      ensure_ascii=False)
        why = confirm(b['id'])
        print(b['id'], 'ok' if not why else f'REJECTED {why}', flush=True)
        if why:
            shutil.rmtree(d)


HEAD = '''"""Exit 0 if the property holds, 1 if it is broken."""
import atexit
import contextlib
import io
import os
import shutil
import sys
import tempfile

sys.path.insert(0, os.path.join(os.getcwd(), 'src'))
TMP = tempfile.mkdtemp(prefix='demo-')
atexit.register(shutil.rmtree, TMP, True)
os.chdir(TMP)
sys.stdin = open(os.devnull)


def write(path, text):
    if os.path.dirname(path):
        os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, 'w', encoding='utf-8') as f:
        f.write(text)


def read(path):
    with open(path, encoding='utf-8') as f:
        return f.read()


def po(*entries):
    out = 'msgid ""\\nmsgstr ""\\n'
    for e in entries:
        out += '\\n' + e.strip() + '\\n'
    return out


def check(got, expected):
    if got != expected:
        print('expected:', repr(expected))
        print('observed:', repr(got))
        sys.exit(1)


'''


def catch(ids):
    table = []
    for i in ids or sorted(os.listdir(SEEDED)):
        d = os.path.join(SEEDED, i)
        if not os.path.isdir(d):
            continue
        with open(f'{d}/meta.json') as f:
            prop = json.load(f)['property']
        clean()
        p = sh('git', '-C', '/repo', 'apply', f'{d}/patch.diff')
        assert not p.returncode, (i, p.stderr)
        try:
            p = sh(f'{VERIF}/check.py', prop, cwd=VERIF)
        finally:
            sh('git', '-C', '/repo', 'checkout', '--', '.')
        got = p.returncode == 1 and f'VIOLATION property={prop}' in p.stdout
        clause = [x for x in p.stdout.splitlines() if 'clause' in x][:1]
        print(i, prop, 'caught' if got else f'MISSED ({p.returncode})',
              (clause or [p.stderr[-200:]])[0][:150], flush=True)
        table.append((i, prop, got, (clause or [''])[0].strip()[:110]))
    n = sum(t[2] for t in table)
    print(f'{n} of {len(table)} caught')
    if ids:
        return
    with open(f'{SEEDED}/RESULTS.md', 'w') as f:
        f.write('# What the quick checks say of each planted bug\n\n'
                f'{n} of {len(table)} caught by the check of their property.'
                '\n\n| bug | check | what it reports first |\n|---|---|---|\n')
        for i, prop, got, clause in table:
            what = clause.replace('|', '/') if got else '**missed**'
            f.write(f'| {i} | {prop} | {what} |\n')


if __name__ == '__main__':
    cmd, args = sys.argv[1], sys.argv[2:]
    if cmd == 'new':
        new(args[0], args[1:])
    elif cmd == 'confirm':
        for i in args or sorted(os.listdir(SEEDED)):
            print(i, confirm(i) or 'ok', flush=True)
    elif cmd == 'catch':
        catch(args)
