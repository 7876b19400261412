#!/opt/venv/bin/python
"""run.py <property id> [quick|thorough]   or   run.py replay <file>"""
import os, sys
sys.dont_write_bytecode = True
for k in ('OPENBLAS_NUM_THREADS', 'OMP_NUM_THREADS', 'MKL_NUM_THREADS'):
    os.environ[k] = '1'
os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
os.environ.setdefault('PYTHONHASHSEED', '0')
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
import warnings
warnings.simplefilter('ignore')
import numpy, scipy, scipy.linalg, scipy.signal        # noqa: preload before forking
from mc import core

if __name__ == '__main__':
    if sys.argv[1] == 'replay':
        import json, importlib
        d = json.load(open(sys.argv[2]))
        mod = importlib.import_module(d['module'])
        p, info = core.run_case(mod, d['case'], d['args'])
        print('\n'.join(p) if p else 'no problem')
        if info.get('tb'):
            print(info['tb'])
        sys.exit(1 if p else 0)
    sys.exit(core.main(sys.argv[1:]))
