"""usage: run.py <ID> [quick|thorough] | run.py replay <file>"""
import glob
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.append(os.path.join(HERE, 'vendor'))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, REPO)


def load(pid):
    hits = glob.glob(os.path.join(HERE, 'checks', pid.lower() + '_*.py'))
    if len(hits) != 1:
        raise SystemExit('no check for ' + pid)
    import pycomplex
    if not os.path.abspath(pycomplex.__file__).startswith(os.path.abspath(REPO) + os.sep):
        raise SystemExit('pycomplex came from ' + pycomplex.__file__)
    return importlib.import_module('checks.' + os.path.basename(hits[0])[:-3]).P


def main():
    from lib import pbt
    if sys.argv[1] == 'replay':
        with open(sys.argv[2]) as fh:
            pid = json.load(fh)['property']
        return pbt.replay(load(pid), sys.argv[2])
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    return pbt.main(load(pid), tier, seed)


if __name__ == '__main__':
    code = main()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)
