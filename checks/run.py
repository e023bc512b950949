"""usage: run.py C01 [--tier quick|thorough] [--seed N] [--unit U] | run.py --replay FILE"""
import argparse, os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib import harness

if __name__ == '__main__':
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--unit', action='append')
    ap.add_argument('--replay')
    a = ap.parse_args()
    if os.environ.get('PYTHONHASHSEED') is None:
        os.environ['PYTHONHASHSEED'] = '0'
        os.execv(sys.executable, [sys.executable, *sys.argv])
    sys.exit(harness.replay(a.replay) if a.replay else harness.run_check(a.prop, a.tier, a.seed, a.unit))
