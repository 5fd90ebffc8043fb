#!/usr/bin/env python3
"""check.py <property id> [quick|thorough]   exit 0: held; exit 1 + VIOLATION line: broken; exit 2: no answer."""
import os, sys
if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from kstatic.runner import main
sys.exit(main(sys.argv[1:]))
