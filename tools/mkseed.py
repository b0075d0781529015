"""python3 tools/mkseed.py SPEC.py : writes and confirms planted bugs.
SPEC.py defines BUGS = [dict(id, property, edits=[(file, old, new)], demo, needs, breaks)]."""
import json, os, runpy, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
PY = '/opt/venv/bin/python'
HEAD = '''import sys, os, tempfile, warnings
sys.path.insert(0, os.path.join(os.getcwd(), 'src'))
sys.dont_write_bytecode = True
warnings.simplefilter('ignore')
import toron
from toron import *
assert os.path.abspath(toron.__file__).startswith(os.path.join(os.getcwd(), 'src')), toron.__file__
'''
SH = '''#!/bin/bash
exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)


def one(b):
    d = os.path.join(VERIF, 'seeded', b['id'])
    tmp = tempfile.mkdtemp(prefix='seed-', dir='/tmp')
    try:
        repo = os.path.join(tmp, 'repo')
        shutil.copytree('/repo', repo, symlinks=True)
        for f, old, new in b['edits']:
            p = os.path.join(repo, f)
            s = open(p).read()
            if s.count(old) != 1:
                return b['id'], f'edit matches {s.count(old)} times in {f}: {old[:60]!r}'
            open(p, 'w').write(s.replace(old, new))
        diff = subprocess.run(['git', 'diff'], cwd=repo, text=True, stdout=subprocess.PIPE).stdout
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, 'patch.diff'), 'w').write(diff)
        open(os.path.join(d, 'demo.py'), 'w').write(HEAD + b['demo'].lstrip('\n'))
        open(os.path.join(d, 'demo.sh'), 'w').write(SH)
        os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        bad = sh(f'bash {d}/demo.sh', repo)
        good = sh(f'bash {d}/demo.sh', '/repo')
        if good.returncode != 0:
            return b['id'], 'demo fails on the unchanged tree: ' + good.stdout[-600:]
        if bad.returncode == 0:
            return b['id'], 'demo passes with the patch'
        env = dict(os.environ, PYTHONPATH=os.path.join(repo, 'src'), PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', TMPDIR=tmp,
                   LC_ALL='C.UTF-8', TZ='UTC', PYTEST_DISABLE_PLUGIN_AUTOLOAD='1')
        r = sh(f'setpriv --bounding-set -dac_override,-dac_read_search {PY} -m pytest -q -p pytest_timeout -p no:cacheprovider -o python_classes= --timeout=120 '
               f'-o junit_family=xunit2 --junitxml={tmp}/j.xml tests', repo, env=env)
        sh(f'/usr/bin/python3 /opt/vp/results.py {tmp}/o.json junit:{tmp}/j.xml', repo)
        o = json.load(open(f'{tmp}/o.json'))
        passed = set(o['passed'] if isinstance(o.get('passed'), list) else [k for k, v in o.items() if v == 'passed'])
        lost = sorted(BASE - passed)
        if lost:
            return b['id'], f'breaks {len(lost)} stable tests, e.g. {lost[:3]}'
        return b['id'], 'ok   demo: ' + (bad.stdout.strip().splitlines() or ['?'])[-1][:120]
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    bugs = runpy.run_path(sys.argv[1])['BUGS']
    if len(sys.argv) > 2:
        bugs = [b for b in bugs if b['id'] in sys.argv[2:]]
    with ThreadPoolExecutor(6) as ex:
        for i, msg in ex.map(one, bugs):
            print(i, msg)
            if not msg.startswith('ok'):
                shutil.rmtree(os.path.join(VERIF, 'seeded', i), ignore_errors=True)


main()
