#!/usr/bin/env python3
"""check.py C01            run the check (VERIF_TIER, VERIF_SEED from the environment)
   check.py C01 --replay F  rerun one recorded case"""
import importlib, json, os, sys
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import vlib

def main():
    pid = sys.argv[1]
    mod = importlib.import_module(pid.lower())
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    only = None
    if '--replay' in sys.argv:
        only = [json.load(open(sys.argv[sys.argv.index('--replay') + 1]))['case']]
    try:
        return vlib.run(mod.CHECK, pid.lower(), tier, seed, only)
    except vlib.MachineryError as e:
        print('ERROR: ' + str(e))
        return 3

if __name__ == '__main__':
    sys.exit(main())
