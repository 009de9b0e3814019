#!/usr/bin/env python3
"""Entry point of all checks:  check.py Cxx [--tier quick|thorough]
                               check.py --replay FILE

Runs with the interpreter hiku is installed for; hiku is imported from /repo.
"""
import os
import sys

PY = '/opt/venv/bin/python'
REPO = os.environ.get('HIKU_REPO', '/repo')

if os.path.realpath(sys.executable) != os.path.realpath(PY) or \
        os.environ.get('HKV') != '1':
    os.environ['HKV'] = '1'
    os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(PY, [PY, '-W', 'ignore', os.path.abspath(__file__)]
             + sys.argv[1:])

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, REPO)

from hk import core  # noqa

if __name__ == '__main__':
    sys.exit(core.main(sys.argv[1:]))
