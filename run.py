#!/usr/bin/env python
"""Runs one check:  run.py ID [--tier T] [--replay FILE]"""
import sys, os, argparse, json, importlib, traceback, warnings
warnings.filterwarnings('ignore')
ap = argparse.ArgumentParser()
ap.add_argument('id')
ap.add_argument('--tier', default=None)
ap.add_argument('--replay', default=None)
args = ap.parse_args()
if args.tier:
    os.environ['VERIF_TIER'] = args.tier
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mc import core
core.TIER = os.environ.get('VERIF_TIER', 'quick')
try:
    mod = importlib.import_module('checks.' + args.id.lower())
except Exception as e:
    # the code under test cannot even be imported
    tb = traceback.format_exc()
    if core.REPO in tb:
        ck = core.Check(args.id, 'exploration')
        ck.violation('import', tb, {})
        sys.exit(ck.finish())
    raise
if args.replay:
    case = json.load(open(args.replay))
    r = core.Rec()
    with r.case(case['case']):
        mod.replay(r, case['case'])
    for v in r.viol:
        print(v[0]); print(v[1])
    print('REPRODUCED' if r.viol else 'not reproduced')
    sys.exit(1 if r.viol else 0)
ck = mod.make()
try:
    with ck.case({'stage': 'driver'}):
        mod.run(ck)
except core.Skip as e:
    ck.note(f'skipped: {e}')
sys.stdout.flush()
sys.exit(ck.finish())
