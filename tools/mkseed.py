#!/usr/bin/env python3
"""Make /verif/seeded/<id>/ from tools/seeds.py and confirm every one of them.

    mkseed.py [ID...]        make and confirm (tests pass, demo fails with the patch and passes without)
    mkseed.py --check [ID...]  also run the check of the property on the patched copy
"""
import json, os, shutil, subprocess, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
import seeds
root = os.path.dirname(here)
S = os.path.join(root, 'seeded')
SCRATCH = '/tmp/seedrepo'


def run(cmd, **k):
    return subprocess.run(cmd, capture_output=True, text=True, **k)


def main():
    args = sys.argv[1:]
    check = '--check' in args
    ids = [a for a in args if not a.startswith('-')]
    for s in seeds.SEEDS:
        if ids and s['id'] not in ids:
            continue
        shutil.rmtree(SCRATCH, ignore_errors=True)
        run(['git', 'clone', '-q', '--shared', '/repo', SCRATCH])
        for file, old, new in s['edits']:
            p = os.path.join(SCRATCH, file)
            text = open(p).read()
            assert text.count(old) == 1, (s['id'], file, text.count(old), old)
            open(p, 'w').write(text.replace(old, new))
        diff = run(['git', '-C', SCRATCH, 'diff']).stdout
        base = run(['git', '-C', '/repo', 'rev-list', '--max-parents=0', 'HEAD']).stdout.strip()
        for file, old, new in s['edits']:
            text = open(os.path.join('/repo', file)).read()
            orig = run(['git', '-C', '/repo', 'show', base + ':' + file]).stdout.splitlines()
            gone = [l for l in old.splitlines() if l.strip() and l not in new.splitlines()]
            if not any(l in orig for l in gone):
                print(s['id'], 'WARNING: changes no original line', gone)
        d = os.path.join(S, s['id'])
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, 'patch.diff'), 'w').write(diff)
        open(os.path.join(d, 'demo.py'), 'w').write(s['demo'].strip() + '\n')
        with open(os.path.join(d, 'demo.sh'), 'w') as f:
            f.write('#!/bin/sh\nd=$(cd "$(dirname "$0")" && pwd)\nPYTHONPATH=. PYTHONDONTWRITEBYTECODE=1 exec /opt/venv/bin/python "$d/demo.py"\n')
        os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        with open(os.path.join(d, 'meta.json'), 'w') as f:
            json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['breaks']), f, indent=1)
            f.write('\n')
        t = run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', 'tests'], cwd=SCRATCH,
                env=dict(os.environ, PYTHONPATH=SCRATCH))
        ok = run(['sh', os.path.join(d, 'demo.sh')], cwd='/repo')
        bad = run(['sh', os.path.join(d, 'demo.sh')], cwd=SCRATCH)
        print(s['id'], s['property'], 'tests', 'pass' if t.returncode == 0 else 'FAIL ' + t.stdout[-300:],
              'demo', ok.returncode, bad.returncode, '' if ok.returncode == 0 else ok.stderr[-500:], flush=True)
        if check:
            c = run(['./run.sh', s['property'], '--tier', 'quick'], cwd=root, env=dict(os.environ, VS_REPO=SCRATCH))
            v = [l for l in c.stdout.splitlines() if 'VIOLATION' in l or '[' in l][:3]
            print('   check exit', c.returncode, '; '.join(v)[:400], flush=True)
    shutil.rmtree(SCRATCH, ignore_errors=True)


main()
