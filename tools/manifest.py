#!/usr/bin/env python3
"""Writes MANIFEST.json from the property modules."""
import importlib
import json
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
if os.path.exists('/opt/venv/bin/python') and os.path.realpath(sys.prefix) != '/opt/venv':
	os.execv('/opt/venv/bin/python', ['/opt/venv/bin/python', os.path.abspath(__file__)])

COMMON = (
	'Seeded search: it shows the property on the runs explored, whose number and kinds the evidence file reports, and says nothing '
	'about others. Trusted: CPython, the simulator and the reference model in sim/.'
)
NOTES = {
	'C01': 'Histories of up to some dozens of edits over up to 8 names, so that names and ids collide often.',
	'C02': 'The position of the failure is enumerated inside an edit where caller code is called back; which edits and histories are sampled.',
	'C03': 'Within a run every executed line of the edit is a crash point (all of them in turn for one edit, sampled for repeated interruptions); interrupts between two bytecodes of one line are sampled.',
	'C04': 'Graphs of up to 8 nodes; the interrupted queries are cut at sampled steps and stack depths.',
	'C05': 'Snapshots are restored in helper processes with another hash seed, which outlive nothing of the original.',
	'C06': 'Graphs rendered have up to about 10 nodes and 11 edges (inheriting colours is exponential in the library).',
	'C07': 'The layout program, the viewer and the file layer are simulated; graphviz itself (the Python package) is real.',
	'C08': 'Hash seeds 0, 1 and 4242 and random ones of helper processes; other threads are real, one runs at a time.',
	'C09': 'Operands of up to 8 nodes with seeded histories; the failing call of the combining function is enumerated.',
	'C10': 'The step at which the source fails is enumerated for every description.',
	'C11': 'Networks of up to 9 objects; the failing answer is enumerated for every network.',
	'C12': 'Threads are real, one runs at a time; the turn passes at sampled lines or bytecode instructions inside the library.',
	'C13': 'Threads are real, one runs at a time; the turn passes at sampled lines or bytecode instructions inside the library.',
	'C14': 'Outlines of up to 14 lines; the failing line is enumerated.',
	'C16': 'One to three graphs of up to 9 nodes and 10 edges; which renders fail, at which step, and the interleavings are sampled.',
	'C17': 'One to three graphs with seeded options; which renders fail, and at which step, is sampled.',
	'C18': 'Two graphs of up to 7 nodes; failing comparisons of values are enumerated (up to 12), interrupts are sampled.',
	'C19': 'One to three graphs of up to 8 nodes and 10 edges that share six styles; the interrupted steps are sampled.'
}
REASONS = {
	'C15': 'quoting is a pure function of one string: no schedule, fault, clock or history takes part, so there is nothing for a simulation to decide'
}


def main():
	checks, missing = [], []
	with open(os.path.join(VERIF, 'properties.jsonl')) as file:
		ids = [json.loads(line)['id'] for line in file if line.strip()]
	for name in ids:
		if not os.path.exists(os.path.join(VERIF, 'sim', 'props', name.lower() + '.py')):
			missing.append({'property': name, 'reason': REASONS.get(name, 'its check is not built yet')})
			continue
		module = importlib.import_module(f'sim.props.{name.lower()}')
		checks.append({
			'property': name,
			'quick_cmd': f'python3 check.py {name} --tier quick',
			'thorough_cmd': f'python3 check.py {name} --tier thorough',
			'evidence_file': f'evidence/{name}.json',
			'technique': module.TECHNIQUE,
			'level': module.LEVEL,
			'level_note': NOTES[name] + ' ' + COMMON
		})
	document = {
		'version': 1, 'setup_cmd': 'python3 tools/setup.py', 'checks': checks, 'not_applicable': missing,
		'notes': 'No hooks in /repo: every seam is reached from outside (see DESIGN.md). Replay: python3 check.py --replay FILE.'
	}
	with open(os.path.join(VERIF, 'MANIFEST.json'), 'w') as file:
		json.dump(document, file, indent=1)
		file.write('\n')


main()
