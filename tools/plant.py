"""Verify planted bugs:  plant.py verify ID...   (needs seeded/ID/{patch.diff,demo.sh})

For each bug, in a scratch copy of /repo: the patch applies, touches original
lines only, the stable tests pass, the demonstration passes on /repo and fails
on the copy; then the property's check (quick tier, or --all checks) is run on
the copy.
"""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'


def sh(cmd, cwd=None, timeout=1200, env=None):
    p = subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), timeout=timeout,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       env=dict(os.environ, **(env or {})))
    return p.returncode, p.stdout.decode(errors='replace')


def tests(copy):
    env = {'PYTHONPATH': copy, 'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONHASHSEED': '0',
           'OPENBLAS_NUM_THREADS': '1', 'OMP_NUM_THREADS': '1', 'MPLBACKEND': 'Agg'}
    rc, out = sh([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '-n', '8',
                  '--timeout=600', '--disable-warnings', '--tb=line',
                  '--continue-on-collection-errors', '--doctest-glob=*.rst',
                  'pystruct', 'doc'], cwd=copy, env=env)
    return rc, out


def verify(bug, checks, skip_tests=False):
    d = os.path.join(HERE, 'seeded', bug)
    patch = os.path.join(d, 'patch.diff')
    res = {'id': bug}
    tmp = tempfile.mkdtemp(prefix='plant-')
    copy = os.path.join(tmp, 'repo')
    try:
        shutil.copytree('/repo', copy, symlinks=True)
        rc, out = sh(['git', 'apply', patch], cwd=copy)
        res['applies'] = rc == 0
        if rc:
            res['error'] = out
            return res
        # removed lines must be lines of the original repository
        rc, diff = sh(['git', 'diff', '-U0'], cwd=copy)
        orig = 0
        for m in re.finditer(r'^--- a/(\S+)\n\+\+\+ .*\n((?:(?!^diff ).*\n)*)', diff, re.M):
            base = sh(['git', 'show', 'ca7dade:' + m.group(1)], cwd=copy)[1].splitlines()
            for line in m.group(2).splitlines():
                if line.startswith('-') and line[1:].strip():
                    orig += line[1:] in base
                    if line[1:] not in base:
                        res['warn'] = 'not an original line: ' + line
        res['original_lines'] = orig
        env = {'OPENBLAS_NUM_THREADS': '1'}
        res['demo_clean'] = sh(['bash', os.path.join(d, 'demo.sh')], cwd='/repo', env=env, timeout=300)[0]
        res['demo_bug'], out = sh(['bash', os.path.join(d, 'demo.sh')], cwd=copy, env=env, timeout=300)
        res['demo_says'] = out.strip().splitlines()[-1:] if out.strip() else ''
        if not skip_tests:
            rc, out = tests(copy)
            res['tests'] = [l for l in out.splitlines() if re.match(r'FAILED|ERROR|\d+ (passed|failed)', l)]
        for c in checks:
            rc, out = sh([PY, '-W', 'ignore', os.path.join(HERE, 'check.py'), c, '--tier', 'quick'],
                         cwd=HERE, env={'DST_REPO': copy, 'VERIF_SEED': '1'}, timeout=1500)
            v = [l for l in out.splitlines() if l.startswith('VIOLATION')]
            res['check ' + c] = rc
            why = [l for l in out.splitlines() if not l.startswith('  step')]
            res['says ' + c] = ' | '.join(why)[:700]
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return res


def main(argv):
    skip = '--skip-tests' in argv
    every = '--all' in argv
    ids = [a for a in argv if not a.startswith('--')]
    for bug in ids:
        meta = json.load(open(os.path.join(HERE, 'seeded', bug, 'meta.json')))
        checks = (['C%02d' % i for i in range(1, 17)] if every else [meta['property']])
        if '--no-checks' in argv:
            checks = []
        r = verify(bug, checks, skip)
        print(json.dumps(r, indent=1))
        sys.stdout.flush()


if __name__ == '__main__':
    main(sys.argv[1:])
