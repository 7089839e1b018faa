#!/usr/bin/env python3
"""Run one check:  check.py C01 [--tier quick|thorough]  |  check.py replay FILE"""
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'


def main(argv):
    if os.path.exists(PY) and os.path.realpath(sys.prefix) != os.path.realpath('/opt/venv') \
            and '--worker' not in argv:
        os.execv(PY, [PY] + [os.path.abspath(__file__)] + argv)
    from vp import core
    if argv[0] == '--worker':
        core.worker_main(argv[1:])
        return 0
    if argv[0] == 'replay':
        return core.run_replay(os.path.abspath(argv[1]))
    if argv[0] == '--selftest':
        return core.selftest()
    tier = 'quick'
    if '--tier' in argv:
        tier = argv[argv.index('--tier') + 1]
    return core.run_check(argv[0], tier)


if __name__ == '__main__':
    try:
        code = main(sys.argv[1:])
    except Exception:  # noqa: BLE001
        import traceback
        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    os._exit(code)
