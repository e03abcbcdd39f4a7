"""python check.py <property id> [--thorough]: run one check against /repo's working tree."""
import os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
WANT = {'PYTHONHASHSEED': '0', 'PYTHONDONTWRITEBYTECODE': '1', 'OMP_NUM_THREADS': '1',
        'OPENBLAS_NUM_THREADS': '1'}
if any(os.environ.get(k) != v for k, v in WANT.items()):
    os.environ.update(WANT)         # hash order and the like are fixed before the interpreter starts
    os.execv(sys.executable, [sys.executable, os.path.join(HERE, 'check.py')] + sys.argv[1:])
sys.path.insert(0, HERE)
from vlib.core import main
if __name__ == '__main__':
    sys.exit(main(sys.argv[1], sys.argv[2:]))
