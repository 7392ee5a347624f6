#!/usr/bin/env python3
"""planted.py [ID ...]: applies each planted bug of seeded/ to a scratch copy of /repo and runs the check of its property.

Prints one line per bug: id, property, caught or missed, the run that found it and what it reported.
"""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def run(bug, jobs):
	folder = os.path.join(VERIF, 'seeded', bug)
	with open(os.path.join(folder, 'meta.json')) as file:
		meta = json.load(file)
	scratch = tempfile.mkdtemp(prefix='planted-')
	try:
		repo = os.path.join(scratch, 'repo')
		verif = os.path.join(scratch, 'verif')
		shutil.copytree('/repo', repo, symlinks=True)
		shutil.copytree(VERIF, verif, ignore=shutil.ignore_patterns('.git', 'seeded', 'evidence', '__pycache__'))
		subprocess.run(['git', 'apply', os.path.join(folder, 'patch.diff')], cwd=repo, check=True)
		begin = time.monotonic()
		result = subprocess.run(
			[sys.executable, 'check.py', meta['property'], '--jobs', str(jobs)], cwd=verif, capture_output=True, text=True,
			env=dict(os.environ, ABSTRACT_SIM_REPO=repo)
		)
		caught = result.returncode == 1 and f'VIOLATION property={meta["property"]}' in result.stdout
		found = re.search(r'^run (\d+): ([^:]*):', result.stdout, re.M)
		return (
			bug, meta['property'], 'caught' if caught else f'MISSED (exit {result.returncode})',
			f'run {found.group(1)}: {found.group(2)}' if found else '', f'{time.monotonic() - begin:.0f} s'
		)
	finally:
		shutil.rmtree(scratch)


def main():
	for bug in sys.argv[1:] or sorted(os.listdir(os.path.join(VERIF, 'seeded'))):
		print(' | '.join(run(bug, 3)), flush=True)


main()
