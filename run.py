#!/opt/venv/bin/python
"""run.py PROPERTY [quick|thorough] [--replay FILE]"""
import os
import sys

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
    os.execv('/opt/venv/bin/python',
             ['/opt/venv/bin/python', os.path.abspath(__file__)] +
             sys.argv[1:])
REPO_SRC = os.environ.get('VP_REPO_SRC', '/repo/src')
sys.path.insert(0, HERE)
sys.path.insert(0, REPO_SRC)

from vp.runner import main  # noqa: E402

sys.exit(main(sys.argv[1:]))
