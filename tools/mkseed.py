"""mkseed.py FILE...: each file defines a planted bug; writes /verif/seeded/<id>/ after confirming it
(patch applies, tests pass, demo is 0 without and nonzero with it).  Format of a file: python assigning
ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (python source that exits nonzero on failure)."""
import json, os, shutil, subprocess, sys
SCRATCH = '/tmp/seedwork'
def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)
HEAD = '''#!/bin/bash
# run with cwd /repo: exit 0 on the unchanged tree, nonzero with the change
exec env PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -B -W ignore "$(dirname "$0")/demo.py"
'''
PRE = '''import sys
from modularcalculator.modularcalculator import ModularCalculator
from modularcalculator.objects.exceptions import *

def calc(preset='Computing'):
    c = ModularCalculator(preset)
    if preset == 'Computing':
        c.unit_simplification_set(True)
    return c

def show(c, v):
    if isinstance(v, list):
        return [show(c, e.value) for e in v]
    return v.to_string(c) if hasattr(v, 'to_string') else v

def last(c, text, flags=None):
    return show(c, c.calculate(text, flags or {}).results[-1].value)

def expect(got, want):
    if got != want:
        print('got', got, 'wanted', want)
        sys.exit(1)

'''
for f in sys.argv[1:]:
    d = {}
    exec(open(f).read(), d)
    sh('rm -rf ' + SCRATCH)
    sh('cp -a /repo ' + SCRATCH)
    sh('git checkout -q -- .', cwd=SCRATCH)
    ok = True
    for path, old, new in d['EDITS']:
        p = os.path.join(SCRATCH, path)
        s = open(p).read()
        if s.count(old) != 1:
            print(d['ID'], 'edit does not match once:', s.count(old), repr(old[:60])); ok = False; break
        open(p, 'w').write(s.replace(old, new))
    if not ok: continue
    patch = sh('git diff', cwd=SCRATCH).stdout
    out = '/tmp/seedout/' + d['ID']
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    open(out + '/patch.diff', 'w').write(patch)
    open(out + '/demo.sh', 'w').write(HEAD)
    os.chmod(out + '/demo.sh', 0o755)
    open(out + '/demo.py', 'w').write(PRE + d['DEMO'].lstrip('\n'))
    json.dump({'property': d['PROPERTY'], 'needs': d['NEEDS'], 'what_it_breaks': d['BREAKS']}, open(out + '/meta.json', 'w'), indent=1)
    a = sh('bash {}/demo.sh'.format(out), cwd='/repo')
    b = sh('bash {}/demo.sh'.format(out), cwd=SCRATCH)
    # lines removed by the patch must be lines of the original repository
    t = sh('cd {0} && PYTHONPATH={0}:{0}/tests:/opt/vp/plugin PYTHONDONTWRITEBYTECODE=1 VP_LINES=/dev/null /opt/venv/bin/python -B -m pytest -q -n 8 -p no:cacheprovider --rootdir={0} --import-mode=importlib -o python_files=*.py --ignore=tests/tests.py -W ignore --tb=short --timeout=20 tests 2>&1 | tail -3'.format(SCRATCH))
    good = a.returncode == 0 and b.returncode != 0 and 'failed' not in t.stdout and 'passed' in t.stdout
    print(d['ID'], 'OK' if good else 'BAD', 'demo clean', a.returncode, 'patched', b.returncode, '|', t.stdout.strip().split('\n')[-1])
    if not good:
        print(a.stdout[-300:], a.stderr[-500:], '---', b.stdout[-300:], b.stderr[-300:])
    else:
        dst = '/verif/seeded/' + d['ID']
        shutil.rmtree(dst, ignore_errors=True)
        shutil.copytree(out, dst)
    sh('rm -rf ' + SCRATCH)
