"""run.py C01 [quick|thorough] [--part NAME]... | run.py C01 --replay FILE"""
import argparse
import importlib
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable, *sys.argv])

import bridge  # noqa: E402
import common  # noqa: E402

if __name__ == '__main__':
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('tier', nargs='?', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--part', action='append')
    a = ap.parse_args()
    os.chdir(bridge.VERIF)
    bridge.use_repo()
    try:
        mod = importlib.import_module(f'checks.{a.prop.lower()}')
        code = common.replay(mod, a.tier, a.replay) if a.replay else \
            common.main(mod, a.tier, a.part)
    except SystemExit:
        raise
    except BaseException as err:
        import traceback
        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    os._exit(code)
