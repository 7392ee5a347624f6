#!/usr/bin/env python3
"""There is nothing to build; makes sure that what the checks need is here."""
import os
import subprocess
import sys

PYTHON = '/opt/venv/bin/python' if os.path.exists('/opt/venv/bin/python') else sys.executable
code = 'import sys, graphviz, colouration, base32hex; assert sys.version_info >= (3, 12); print("ready:", sys.version.split()[0])'
sys.exit(subprocess.call([PYTHON, '-c', code]))
