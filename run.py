"""
Entry point of every check:   run.py <property> [--tier quick|thorough] [--replay FILE]
"""
import argparse
import os
import sys

sys.dont_write_bytecode = True
os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
REPO = os.environ.get('MC_REPO', '/repo')
HERE = os.path.dirname(os.path.abspath(__file__))
# The code under test is always the working tree of /repo, compiled afresh.
sys.pycache_prefix = '/nonexistent/mc-pycache'
sys.path[:0] = [REPO, HERE]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    a = ap.parse_args()
    import mpsci
    assert os.path.realpath(mpsci.__file__).startswith(os.path.realpath(REPO)), mpsci.__file__
    from mc.core import run_check
    sys.exit(run_check('mc.checks.' + a.property.lower(), a.tier, a.replay))


if __name__ == '__main__':
    main()
