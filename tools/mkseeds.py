"""Writes /verif/seeded/<id>/ from the edits and demonstrations below and
checks each of them: applies, builds, passes the tests, and the demonstration
tells the changed tree from the unchanged one.

usage: mkseeds.py [id ...]
"""
import json
import os
import re
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
OUT = os.path.join(os.path.dirname(HERE), 'seeded')
BUGS = []


def bug(id, prop, needs, breaks, edits, demo):
    BUGS.append((id, prop, needs, breaks, edits, demo))


sys.path.insert(0, HERE)
for f in sorted(os.listdir(os.path.join(HERE, 'seedlib'))):
    if re.match(r'bugs.*\.py$', f):
        exec(compile(open(os.path.join(HERE, 'seedlib', f)).read(), f, 'exec'))

PRE = 'import sys, os\nsys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))\nimport fakes\nimport numpy as np\nimport warnings\nwarnings.simplefilter("ignore")\n\n\n' \
      'def need(ok, what):\n    if not ok:\n        print("FAILED:", what)\n        sys.exit(1)\n\n\n'


def put(path, text):
    with open(path, 'w', newline='') as f:
        f.write(text)


def sh(cmd, cwd=None, env=None):
    r = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env)
    r.stdout = r.stdout.decode()
    return r


def main():
    want = sys.argv[1:]
    for id, prop, needs, breaks, edits, demo in BUGS:
        if want and id not in want:
            continue
        d = os.path.join(OUT, id)
        w = '/tmp/seedwork'
        shutil.rmtree(w, ignore_errors=True)
        sh('cp -a /repo %s' % w)
        for path, old, new in edits:
            p = os.path.join(w, 'convst', path)
            s = open(p, newline='').read()
            if '\r\n' in s:
                old, new = old.replace('\n', '\r\n'), new.replace('\n', '\r\n')
            n = s.count(old)
            if n != 1:
                print(id, 'BAD EDIT', path, n, repr(old[:60]))
                break
            put(p, s.replace(old, new))
        else:
            os.makedirs(d, exist_ok=True)
            diff = sh('git diff', cwd=w).stdout
            put(os.path.join(d, 'patch.diff'), diff)
            shutil.copy(os.path.join(HERE, 'seedlib', 'fakes.py'), d)
            shutil.copy(os.path.join(HERE, 'seedlib', 'demo.sh'), d)
            os.chmod(os.path.join(d, 'demo.sh'), 0o755)
            put(os.path.join(d, 'demo.py'), PRE + demo.strip() + '\nprint("ok")\n')
            put(os.path.join(d, 'meta.json'), json.dumps({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, indent=1) + '\n')
            a = sh('bash %s/demo.sh' % d, cwd='/repo')
            b = sh('bash %s/demo.sh' % d, cwd=w)
            ok = a.returncode == 0 and b.returncode == 1 and 'FAILED' in b.stdout
            # lines removed must be lines of the original repository
            base = sh('git rev-list --max-parents=0 HEAD', cwd='/repo').stdout.strip()
            orig = True
            for path, old, new in edits:
                o = sh('git show %s:convst/%s' % (base, path), cwd='/repo').stdout
                rem = [l[1:] for l in diff.split('\n') if l.startswith('-') and not l.startswith('---')]
            for l in rem:
                if not any(l in sh('git show %s:convst/%s' % (base, p), cwd='/repo').stdout.split('\n') for p, _, _ in edits):
                    orig = False
                    print('   not an original line:', l)
            t = sh('git apply --check %s/patch.diff' % d, cwd='/repo').returncode == 0
            comp = sh('/opt/venv/bin/python -B -m compileall -q convst', cwd=w).returncode == 0
            tests = sh('/opt/venv/bin/python -B -m pytest -q -p no:cacheprovider tests/test_checks_utils.py', cwd=w).stdout
            tests = tests.strip().splitlines()[-1] if tests.strip() else ''
            print(id, prop, 'OK' if ok and orig and t and comp and '22 passed' in tests else 'BAD', tests[:40])
            if not ok:
                print('  unchanged:', a.returncode, a.stdout[-600:])
                print('  changed:', b.returncode, b.stdout[-600:])
        shutil.rmtree(w, ignore_errors=True)


main()
