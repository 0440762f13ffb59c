#!/usr/bin/env python3
"""Entry point of all checks.

    run.py C01 quick|thorough        run a check
    run.py C01 --replay FILE         run exactly the case in FILE
    run.py --setup                   verify that the tools are there
    run.py --worker ...              internal, one shard of a check
"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

PYTHON = '/opt/venv/bin/python'
if os.path.exists(PYTHON) and os.path.realpath(sys.prefix) != '/opt/venv':
    os.execv(PYTHON, [PYTHON, '-B'] + sys.argv)

from lib import harness  # noqa: E402

if __name__ == '__main__':
    sys.exit(harness.main(sys.argv[1:]))
