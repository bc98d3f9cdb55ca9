"""run.py <id> [quick|thorough]   |   run.py replay FILE   |   run.py all [quick|thorough]"""
import glob
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('QG_REPO', '/repo')
VENV = '/opt/venv/bin/python'

WANT = {'PYTHONHASHSEED': '0', 'PYTHONDONTWRITEBYTECODE': '1', 'OMP_NUM_THREADS': '1', 'OPENBLAS_NUM_THREADS': '1',
        'MKL_NUM_THREADS': '1', 'MPLBACKEND': 'Agg', 'PYTHONWARNINGS': 'ignore'}
if any(os.environ.get(k) != v for k, v in WANT.items()) or not os.environ.get('QG_MC'):
    os.environ.update(WANT)
    os.environ['QG_MC'] = '1'
    exe = VENV if os.path.exists(VENV) else sys.executable
    os.execv(exe, [exe, os.path.abspath(__file__)] + sys.argv[1:])

sys.path.insert(0, os.path.join(REPO, 'src'))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
sys.setrecursionlimit(3000)
import warnings  # noqa: E402
warnings.simplefilter('ignore')
import quanguru  # noqa: E402
assert os.path.abspath(quanguru.__file__).startswith(os.path.abspath(REPO)), quanguru.__file__
from mc import core  # noqa: E402


def module(prop):
    return importlib.import_module('checks.' + prop.lower())


def main(argv):
    tier = (argv[1] if len(argv) > 1 else None) or os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    if argv[0] == 'replay':
        path = argv[1]
        return core.replay(module(json.load(open(path))['property']), path)
    if argv[0] == 'selftest':
        from mc import ref
        return ref.selftest()
    if argv[0] == 'all':
        rc = 0
        for f in sorted(glob.glob(os.path.join(HERE, 'checks', 'c[0-9]*.py'))):
            rc |= core.run_check(module(os.path.basename(f)[:-3]), tier, seed)
            sys.stdout.flush()
        return rc
    return core.run_check(module(argv[0]), tier, seed)


if __name__ == '__main__':
    code = main(sys.argv[1:])
    sys.stdout.flush()
    os._exit(code)
