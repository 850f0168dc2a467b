#!/usr/bin/env python3
"""run.py PROPERTY [--tier quick|thorough]: decides one property on /repo's working tree."""
import os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
from common import *

def main():
    prop = sys.argv[1]
    if prop == '--setup':
        import shutil
        for t in ('java', 'go'):
            if not shutil.which(t): sys.exit('missing ' + t)
        import checks
        print('ready:', ' '.join(sorted(checks.CHECKS)))
        return
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv: tier = sys.argv[sys.argv.index('--tier') + 1]
    res = Result(prop, tier)
    try:
        import checks
        checks.CHECKS[prop](prop, tier, res)
        sys.exit(finish(res))
    except Infra as e:
        print('ERROR (no verdict):', e)
        sys.exit(2)
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        sys.exit(2)

main()
