"""Makes /verif/seeded/<id>/ from the description of a planted bug, after confirming it.

python3 seed.py FILE...   FILE: python source that sets ID, PROPERTY, NEEDS, BREAKS, EDITS = [(path, old, new)], DEMO"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = '2259dd4'
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', LANG='C.UTF-8', PYTEST_DISABLE_PLUGIN_AUTOLOAD='1')
DEMO_SH = '''#!/bin/bash
export PYTHONDONTWRITEBYTECODE=1 LANG=C.UTF-8
exec timeout 250 /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''
DEMO_HEAD = '''import os
import sys
sys.path.insert(0, os.getcwd())

'''


def sh(*args, **kw):
    return subprocess.run(args, capture_output=True, text=True, env=ENV, **kw)


def original(path, start, stop):
    """Are lines start..stop of the file from the base commit?"""
    out = sh('git', '-C', '/repo', 'blame', '-l', '-L%d,%d' % (start, stop), '--', path).stdout
    base = set(sh('git', '-C', '/repo', 'rev-list', BASE).stdout.split())
    return all(line.lstrip('^').split()[0] in base or any(b.startswith(line.lstrip('^').split()[0]) for b in base)
               for line in out.splitlines())


def make(file):
    d = {}
    exec(open(file, encoding='utf8').read(), d)
    name = d['ID']
    problems = []
    copy = tempfile.mkdtemp(prefix='seed_')
    repo = os.path.join(copy, 'repo')
    try:
        shutil.copytree('/repo', repo, symlinks=True)
        for path, old, new in d['EDITS']:
            p = os.path.join(repo, path)
            s = open(p, encoding='utf8').read()
            if s.count(old) != 1:
                print(name, 'BAD EDIT: %d occurrences in %s' % (s.count(old), path), repr(old[:60]))
                return
            with open(p, 'w', encoding='utf8') as f:
                f.write(s.replace(old, new))
        patch = sh('git', '-C', repo, 'diff', '-U3').stdout
        old_lines = []
        for line in sh('git', '-C', repo, 'diff', '-U0').stdout.splitlines():
            if line.startswith('--- a/'):
                path = line[6:]
            if line.startswith('@@'):
                a = line.split()[1][1:].split(',')
                start, count = int(a[0]), int(a[1]) if len(a) > 1 else 1
                if count:
                    old_lines.append(original(path, start, start + count - 1))
        if not old_lines:
            problems.append('only adds lines')
        elif not any(old_lines):
            problems.append('NO ORIGINAL LINES changed')
        elif not all(old_lines):
            problems.append('(some changed lines are of fix commits)')
        t = sh('/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--doctest-modules', 'yargy', 'tests', cwd=repo)
        if t.returncode:
            problems.append('TESTS FAIL: ' + ' '.join(x for x in t.stdout.splitlines() if x.startswith(('FAILED', 'ERROR')))[:300])
        out = os.path.join(copy, name)
        os.makedirs(out)
        with open(os.path.join(out, 'demo.py'), 'w', encoding='utf8') as f:
            f.write(DEMO_HEAD + d['DEMO'].strip() + '\n')
        with open(os.path.join(out, 'demo.sh'), 'w') as f:
            f.write(DEMO_SH)
        os.chmod(os.path.join(out, 'demo.sh'), 0o755)
        good = sh('bash', os.path.join(out, 'demo.sh'), cwd='/repo')
        bad = sh('bash', os.path.join(out, 'demo.sh'), cwd=repo)
        if good.returncode:
            problems.append('DEMO FAILS ON UNCHANGED: ' + good.stderr[-300:])
        if not bad.returncode:
            problems.append('DEMO PASSES WITH PATCH')
        with open(os.path.join(out, 'patch.diff'), 'w', encoding='utf8') as f:
            f.write(patch)
        with open(os.path.join(out, 'meta.json'), 'w', encoding='utf8') as f:
            json.dump({'property': d['PROPERTY'], 'needs': d['NEEDS'], 'what_it_breaks': d['BREAKS']}, f, ensure_ascii=False, indent=1)
            f.write('\n')
        serious = [p for p in problems if not p.startswith('(')]
        if not serious:
            target = os.path.join(HERE, 'seeded', name)
            shutil.rmtree(target, ignore_errors=True)
            os.makedirs(os.path.dirname(target), exist_ok=True)
            shutil.copytree(out, target)
        print(name, 'OK' if not serious else 'REJECTED', *problems, '|', bad.stderr.strip().splitlines()[-1:] )
    finally:
        shutil.rmtree(copy)


for file in sys.argv[1:]:
    make(file)
