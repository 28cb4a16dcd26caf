#!/usr/bin/env python3-vt
"""check.py <property> [--tier quick|thorough]   or   check.py replay <file>   or   check.py setup

Exit 0: held; 1: VIOLATION; anything else: the check itself failed."""
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True

if __name__ == '__main__':
    try:
        from vlib import engine
        if sys.argv[1] == 'setup':
            from vlib import codec, motion, num, sut   # noqa: nothing to build
            rc = 0
        elif sys.argv[1] == 'replay':
            rc = engine.replay(sys.argv[2])
        else:
            tier = os.environ.get('VERIF_TIER', 'quick')
            if '--tier' in sys.argv:
                tier = sys.argv[sys.argv.index('--tier') + 1]
            seed = int(os.environ.get('VERIF_SEED', '1'))
            rc = engine.main('checks.' + sys.argv[1].lower(), tier, seed)
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
