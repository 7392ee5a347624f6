#!/usr/bin/env python3
"""repeatable.py [PROPERTY ...]: the same seeds give the same executions, whatever the number of processes they run in.

Runs each check twice on a few hundred seeds, in one process and in several, and compares the digests of the logs of all runs.
"""
import os
import re
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RUNS = {'C01': 600, 'C02': 600, 'C03': 60, 'C04': 120, 'C05': 400, 'C06': 60, 'C07': 400, 'C08': 60, 'C09': 150, 'C10': 120, 'C11': 600, 'C12': 60, 'C13': 80, 'C14': 600, 'C16': 300, 'C17': 300, 'C18': 400, 'C19': 100}


def digest(prop, jobs, seed):
	result = subprocess.run(
		[sys.executable, 'check.py', prop, '--jobs', str(jobs), '--runs', str(RUNS[prop]), '--seed', str(seed)],
		cwd=VERIF, capture_output=True, text=True
	)
	found = re.search(r'log digest (\w+)', result.stdout)
	return found.group(1) if found else f'exit {result.returncode}'


def main():
	bad = 0
	for prop in sys.argv[1:] or sorted(RUNS):
		digests = [digest(prop, jobs, seed) for seed in (1, 2) for jobs in (1, 5, 5)]
		same = len(set(digests[:3])) == 1 and len(set(digests[3:])) == 1 and digests[0] != digests[3]
		bad += not same
		print(prop, 'repeatable' if same else 'NOT REPEATABLE', *digests, flush=True)
	sys.exit(1 if bad else 0)


main()
