"""Plant a bug: python3 tools/plant.py SPEC.py   (SPEC defines ID, PROPERTY, EDITS, DEMO, NEEDS, BREAKS)

Works in a scratch copy of /repo, keeps the bug in seeded/<ID> only if the tests still pass
and the demonstration separates the two trees.  With -n the tests are not run again.
"""
import json, os, runpy, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'

def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)

def main():
    spec = runpy.run_path(sys.argv[1])
    ident = spec['ID']
    tmp = tempfile.mkdtemp(prefix='plant_')
    try:
        repo = os.path.join(tmp, 'repo')
        sh('cp -a /repo %s' % repo)
        sh('git -C %s checkout -q -- .' % repo)
        for path, old, new in spec['EDITS']:
            f = os.path.join(repo, path)
            t = open(f, newline='').read()
            crlf = '\r\n' in t
            if crlf:
                old, new = old.replace('\n', '\r\n'), new.replace('\n', '\r\n')
            n = t.count(old)
            if n != 1:
                print(ident, 'edit matches', n, 'times in', path, repr(old[:60])); return 1
            open(f, 'w', newline='').write(t.replace(old, new))
        diff = subprocess.run('git -C %s diff' % repo, shell=True, stdout=subprocess.PIPE).stdout
        d = os.path.join(tmp, 'demo'); os.mkdir(d)
        open(os.path.join(d, 'demo.py'), 'w').write(spec['DEMO'].lstrip('\n'))
        open(os.path.join(d, 'demo.sh'), 'w').write(
            '#!/bin/bash\nPY=/opt/venv/bin/python\n[ -x $PY ] || PY=python3\n'
            'PYTHONPATH="$PWD" exec $PY "$(dirname "$0")/demo.py"\n')
        os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        base = sh('bash %s/demo.sh' % d, cwd='/repo')
        mut = sh('bash %s/demo.sh' % d, cwd=repo)
        if base.returncode != 0 or mut.returncode == 0:
            print(ident, 'demo base', base.returncode, 'mutant', mut.returncode)
            print(base.stdout[-1500:], '\n----\n', mut.stdout[-1500:]); return 1
        if '-n' not in sys.argv:
            # tests: in place in the copy
            t = sh("unshare -m bash -c 'mount --bind %s /repo && bash /opt/vp/build.sh && bash /opt/vp/test.sh %s/out.json'" % (repo, tmp))
            try:
                res = json.load(open('%s/out.json' % tmp))
            except Exception:
                print(ident, 'tests gave no result', t.stdout[-1500:]); return 1
            passed = set(res.get('passed', []))
            want = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
            miss = sorted(want - passed)
            if miss:
                print(ident, 'tests fail:', len(miss), miss[:5]); return 1
        out = os.path.join(HERE, 'seeded', ident)
        os.makedirs(out, exist_ok=True)
        open(os.path.join(out, 'patch.diff'), 'wb').write(diff)
        for n in ('demo.py', 'demo.sh'):
            shutil.copy(os.path.join(d, n), os.path.join(out, n))
        json.dump({'property': spec['PROPERTY'], 'needs': spec['NEEDS'], 'what_it_breaks': spec['BREAKS']},
                  open(os.path.join(out, 'meta.json'), 'w'), indent=1)
        print(ident, 'kept; demo on the mutant:', mut.stdout.strip().splitlines()[-1:] )
        if '-c' in sys.argv:
            r = sh('VERIF_REPO=%s timeout 900 ./run.sh %s' % (repo, spec['PROPERTY']), cwd=HERE)
            v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
            print('   check', spec['PROPERTY'], 'exit', r.returncode, v[:1] or r.stdout[-300:])
        return 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

sys.exit(main())
