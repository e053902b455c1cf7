#!/usr/bin/env python3
"""run.py <property id> [--tier quick|thorough] [--only SCENARIO] | --replay FILE | --conc"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
os.environ.setdefault('PYTHONDONTWRITEBYTECODE', '1')
sys.dont_write_bytecode = True
if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.path.insert(0, HERE)

if __name__ == '__main__':
    if '--conc' in sys.argv:
        from sx import conc
        conc.main()
    else:
        from sx import runner
        sys.exit(runner.main(sys.argv[1:]))
