"""One worker process: executes every n-th simulated run of a batch and reports in JSON lines."""
import json
import os
import resource
import shutil
import sys
import tempfile
import time

from . import engine
from .core import digest


def main():
	config = json.loads(sys.argv[1])
	resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
	resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
	out = os.fdopen(os.dup(1), 'w', buffering=1)
	os.dup2(2, 1)  # whatever the code under test prints does not disturb the report
	sys.stdout = sys.stderr

	def report(**message):
		out.write(json.dumps(message, default=repr) + '\n')

	module = engine.load(config['property'])
	scratch = tempfile.mkdtemp(prefix='sim-', dir=config['scratch'])
	helpers = None
	try:
		if hasattr(module, 'start_helpers'):
			helpers = module.start_helpers(config)
		if config['mode'] == 'batch':
			batch(config, module, scratch, helpers, report)
		else:
			single(config, module, scratch, helpers, report)
	finally:
		if helpers is not None:
			helpers.close()
		shutil.rmtree(scratch, ignore_errors=True)


def batch(config, module, scratch, helpers, report):
	deadline = time.monotonic() + config['seconds']
	total = {
		'evaluations': 0, 'events': 0, 'steps': 0, 'sim_time': 0, 'log': 0, 'truncated': False
	}
	counters = {}
	states, points, distinct = set(), set(), set()
	samples = []
	executed = []
	last = time.monotonic()
	progress = open(config['progress'], 'w')
	for index in range(config['start'], config['stop'], config['step']):
		now = time.monotonic()
		if now > deadline:
			total['truncated'] = True
			break
		if now - last > 2:
			report(progress=index)
			last = now
		progress.seek(0)
		progress.write(f'{index}\n')
		progress.flush()
		trace = engine.generate(module, config['seed'], index, config['tier'])
		# a call that does not end is noticed by the runner, which repeats the run with its steps counted
		ctx, violation = engine.execute(module, trace, scratch, helpers, watch=index % 64 == 0)
		executed.append(index)
		if violation is not None:
			if ctx.resolved is not None:
				trace = ctx.resolved
			report(violation=engine.describe(violation), index=index, trace=trace, executed=executed)
			break
		total['evaluations'] += 1
		total['events'] += ctx.events
		total['steps'] += ctx.steps
		total['sim_time'] += ctx.sim_time
		total['log'] = (total['log'] + int(ctx.log_digest, 16)) % (1 << 64)
		for key, value in ctx.counters.items():
			counters[key] = counters.get(key, 0) + value
		if len(states) < 300000:
			states |= ctx.states
		points |= ctx.points
		if ctx.nontrivial:
			distinct.add(digest(trace))
			if len(samples) < 2 and len(json.dumps(trace, default=repr)) < 2500:
				samples.append({'run': index, 'trace': trace})
	report(
		done=total, counters=counters, states=sorted(states), points=sorted(map(repr, points)), distinct=sorted(distinct),
		samples=samples
	)


def single(config, module, scratch, helpers, report):
	"""Executes traces one after another (all but the last one as a prelude), or shrinks the last one."""
	with open(config['file']) as file:
		task = json.load(file)
	for trace in task.get('prelude', []):
		engine.execute(module, trace, scratch, helpers)
	trace = task['trace']
	if config['mode'] == 'shrink':
		trace, attempts = engine.shrink(module, trace, task['kind'], config['seconds'], scratch, helpers)
		report(trace=trace, attempts=attempts)
		return
	ctx, violation = engine.execute(module, trace, scratch, helpers)
	report(
		result=None if violation is None else engine.describe(violation), log=ctx.log_digest,
		resolved=ctx.resolved
	)


if __name__ == '__main__':
	try:
		main()
	except BaseException:
		import traceback
		traceback.print_exc()
		os._exit(70)
