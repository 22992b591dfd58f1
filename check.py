"""Entry point of every registered check.

    /opt/venv/bin/python check.py C01 [--tier quick|thorough]
    /opt/venv/bin/python check.py --replay replays/C01-xxxx.json

Exit 0: the property held on everything explored.
Exit 1 and 'VIOLATION property=<id> replay=<path>': it is broken.
Exit 2: the harness itself failed (never reported as a violation).
"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
FIXED_ENV = {
    'PYTHONHASHSEED': '0',
    'PYTHONDONTWRITEBYTECODE': '1',
    'OPENBLAS_NUM_THREADS': '1',
    'OMP_NUM_THREADS': '1',
    'MKL_NUM_THREADS': '1',
    'MPLBACKEND': 'Agg',
}


def main():
    if os.environ.get('VERIF_PBT_ENV') != '1':
        env = dict(os.environ)
        env.update(FIXED_ENV)
        env['VERIF_PBT_ENV'] = '1'
        venv = '/opt/venv/bin/python'
        exe = venv if os.path.exists(venv) else sys.executable
        os.execve(exe, [exe, os.path.abspath(__file__)] + sys.argv[1:], env)
    sys.dont_write_bytecode = True
    sys.path.insert(0, HERE)
    from pbt import core
    sys.exit(core.main(sys.argv[1:]))


if __name__ == '__main__':
    main()
