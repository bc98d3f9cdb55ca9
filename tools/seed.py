"""seed.py SPEC [check ids]: makes a planted bug from a spec (python file with ID, PROPERTY, FILE, EDITS, DEMO, NEEDS, BREAKS) in a
scratch copy, confirms it (demo passes/fails, tests pass), and tells which checks catch it.
   seed.py --check ID [check ids]: run checks against an existing one."""
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
ENV = dict(os.environ, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1',
           MPLBACKEND='Agg', PYTHONWARNINGS='ignore')


def sh(*cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)


def scratch():
    d = tempfile.mkdtemp(prefix='seed_')
    for x in ('src', 'tests', '.git'):
        shutil.copytree(f'/repo/{x}', f'{d}/{x}', symlinks=True)
    for x in os.listdir('/repo'):
        if os.path.isfile(f'/repo/{x}'):
            shutil.copy(f'/repo/{x}', d)
    return d


def demo(path, where):
    return sh('bash', os.path.join(path, 'demo.sh'), cwd=where, env=dict(ENV, PYTHONPATH=f'{where}/src'))


def checks(d, props):
    for p in props:
        r = sh('python3', f'{VERIF}/run.py', p, 'quick', env=dict(os.environ, QG_REPO=d, QG_OUT=d))
        tail = [x for x in r.stdout.splitlines() if x.strip()][-8:]
        print(f'--- {p}: exit {r.returncode}', 'CAUGHT' if r.returncode == 1 else 'MISSED')
        print('\n'.join('    ' + x[:300] for x in tail if 'executions' not in x))


def main(argv):
    d = scratch()
    try:
        if argv[0] == '--check':
            out = f'{VERIF}/seeded/{argv[1]}'
            r = sh('git', 'apply', f'{out}/patch.diff', cwd=d)
            assert r.returncode == 0, r.stderr
            checks(d, argv[2:] or [json.load(open(f'{out}/meta.json'))['property']])
            return
        s = runpy.run_path(argv[0])
        for f, old, new in s['EDITS']:
            p = f'{d}/src/quanguru/{f}'
            t = open(p).read()
            assert t.count(old) == 1, (f, t.count(old), old)
            open(p, 'w').write(t.replace(old, new))
            first = t[:t.index(old)].count('\n') + 1
            for i in range(first, first + old.rstrip('\n').count('\n') + 1):
                b = sh('git', 'blame', '-s', '-L', f'{i},{i}', '5523ac8..HEAD', '--', f'src/quanguru/{f}', cwd='/repo').stdout
                if b and not b.startswith('^'):
                    print('  not original:', b.strip()[:150])
        out = f'{VERIF}/seeded/{s["ID"]}'
        os.makedirs(out, exist_ok=True)
        diff = sh('git', 'diff', '--', 'src', cwd=d).stdout
        assert diff
        open(f'{out}/patch.diff', 'w').write(diff)
        open(f'{out}/demo.py', 'w').write(s['DEMO'].lstrip('\n'))
        open(f'{out}/demo.sh', 'w').write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg\n'
                                          'exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
        json.dump({'property': s['PROPERTY'], 'needs': s['NEEDS'], 'what_it_breaks': s['BREAKS']},
                  open(f'{out}/meta.json', 'w'), indent=1)
        a, b = demo(out, '/repo'), demo(out, d)
        print(s['ID'], 'demo unpatched', a.returncode, 'patched', b.returncode)
        if a.returncode or not b.returncode:
            print('BAD DEMO', a.stdout[-500:], a.stderr[-800:], b.stdout[-500:])
            shutil.rmtree(out)
            return
        print('   ', (b.stdout + b.stderr).strip().splitlines()[-1][:200])
        bad = 0
        procs = [subprocess.Popen([PY, '-m', 'pytest', '-q', '-x', f'--rootdir={d}', '-p', 'no:cacheprovider', '-p', 'vp_seed', *a], cwd=d,
                                  stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                                  env=dict(ENV, PYTHONPATH=f'{d}/src:/opt/vp/plugins'))
                 for a in (['tests/QuantumToolbox'], ['tests/classes/Integration'],
                           ['tests', '--ignore=tests/QuantumToolbox', '--ignore=tests/classes/Integration'])]
        for p in procs:
            o, _ = p.communicate()
            if p.returncode:
                bad = 1
                print('TESTS FAIL', o[-1500:])
        if bad:
            shutil.rmtree(out)
            return
        print('    tests pass')
        checks(d, argv[1:] or [s['PROPERTY']])
    finally:
        shutil.rmtree(d)


main(sys.argv[1:])
