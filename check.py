#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--seed N] [--jobs N] [--runs N]   or   check.py --replay FILE"""
import os
import sys

PYTHON = '/opt/venv/bin/python'
if os.path.exists(PYTHON) and os.path.realpath(sys.prefix) != os.path.realpath('/opt/venv'):
	os.execv(PYTHON, [PYTHON, os.path.abspath(__file__)] + sys.argv[1:])
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

from sim.runner import main

main()
