"""Runs one check: a batch of simulated runs over all cores, shrinking and replay of a violation, evidence."""
import argparse
import json
import os
import queue
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time

from .core import digest

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PYTHON = '/opt/venv/bin/python'
if not os.path.exists(PYTHON):
	PYTHON = sys.executable
STALL = 60


def environment(hash_seed='0'):
	env = {key: value for key, value in os.environ.items() if not key.startswith('PYTHON')}
	env.update(PYTHONHASHSEED=hash_seed, PYTHONDONTWRITEBYTECODE='1', PYTHONPATH=VERIF, PYTHONUNBUFFERED='1')
	return env


class Worker:
	def __init__(self, config, messages, stderr):
		self.config = config
		self.messages = messages
		self.finished = False
		self.stderr = open(stderr, 'w')
		self.process = subprocess.Popen(
			[PYTHON, '-m', 'sim.worker', json.dumps(config)], cwd=VERIF, env=environment(config.get('hash_seed', '0')),
			stdout=subprocess.PIPE, stderr=self.stderr, stdin=subprocess.DEVNULL, text=True, start_new_session=True
		)
		self.last = time.monotonic()
		self.thread = threading.Thread(target=self._read, daemon=True)
		self.thread.start()

	def _read(self):
		for line in self.process.stdout:
			self.last = time.monotonic()
			try:
				message = json.loads(line)
			except ValueError:
				continue
			self.messages.put((self, message))
		self.process.wait()
		self.messages.put((self, {'exit': self.process.returncode}))

	def kill(self):
		try:
			os.killpg(self.process.pid, signal.SIGKILL)
		except (ProcessLookupError, PermissionError):
			pass

	def close(self):
		self.kill()
		self.process.wait()
		self.stderr.close()


def run_single(prop, mode, task, scratch, seconds=60, timeout=300, tier='quick', seed=1):
	"""Runs one trace (or a shrink) in a fresh process.  Returns (message or None, exit code or 'timeout', stderr)."""
	path = os.path.join(scratch, f'task-{mode}-{time.monotonic_ns()}.json')
	with open(path, 'w') as file:
		json.dump(task, file)
	config = {
		'property': prop, 'mode': mode, 'file': path, 'seconds': seconds, 'scratch': scratch, 'tier': tier, 'seed': seed
	}
	messages = queue.Queue()
	worker = Worker(config, messages, path + '.err')
	result, code = None, None
	end = time.monotonic() + timeout
	try:
		while True:
			try:
				_, message = messages.get(timeout=max(0.1, end - time.monotonic()))
			except queue.Empty:
				return result, 'timeout', ''
			if 'exit' in message:
				code = message['exit']
				break
			result = message
	finally:
		worker.close()
	with open(path + '.err') as file:
		return result, code, file.read()[-4000:]


class Check:
	def __init__(self, prop, tier, seed, jobs=None, runs=None, seconds=None):
		from . import engine
		self.prop = prop
		self.tier = tier
		self.seed = seed
		self.module = engine.load(prop)
		self.runs = runs or self.module.RUNS[tier]
		self.jobs = jobs or min(8, os.cpu_count() or 1)
		self.seconds = seconds or {'quick': 240, 'thorough': 1500}[tier]
		self.scratch = tempfile.mkdtemp(prefix=f'abstract-sim-{prop}-')
		os.chmod(self.scratch, 0o755)

	def close(self):
		shutil.rmtree(self.scratch, ignore_errors=True)

	def batch(self):
		"""Returns (aggregate, violation message or None)."""
		messages = queue.Queue()
		workers = []
		for i in range(self.jobs):
			config = {
				'property': self.prop, 'mode': 'batch', 'tier': self.tier, 'seed': self.seed, 'start': i, 'stop': self.runs,
				'step': self.jobs, 'seconds': self.seconds, 'scratch': self.scratch,
				'progress': os.path.join(self.scratch, f'progress-{i}')
			}
			workers.append(Worker(config, messages, os.path.join(self.scratch, f'stderr-{i}')))
		results, violations = [], []
		grace = None
		try:
			while any(not worker.finished for worker in workers):
				try:
					worker, message = messages.get(timeout=1)
				except queue.Empty:
					worker, message = None, {}
				if 'done' in message:
					results.append(message)
				elif 'violation' in message:
					violations.append(message)
					grace = grace or time.monotonic() + 3
				elif 'exit' in message:
					worker.finished = True
					if message['exit'] != 0 and grace is None:
						found = self.dead(worker, message['exit'])
						if found is not None:
							violations.append(found)
							grace = time.monotonic()
				if grace is not None and time.monotonic() >= grace:
					break
				for worker in workers:
					if not worker.finished and time.monotonic() - worker.last > STALL:
						worker.kill()
						found = self.dead(worker, 'stalled')
						worker.finished = True
						if found is not None:
							violations.append(found)
							grace = time.monotonic()
		finally:
			for worker in workers:
				worker.close()
		violation = min(violations, key=lambda v: v['index']) if violations else None
		return self.aggregate(results), violation

	def dead(self, worker, code):
		"""A worker ended or stalled in the middle of a run: is it the fault of the code under test?"""
		with open(worker.config['progress'] if os.path.exists(worker.config['progress']) else os.devnull) as file:
			text = file.read().strip()
		with open(worker.stderr.name) as file:
			errors = file.read()[-3000:]
		if code == 70 or not text:
			raise RuntimeError(f'worker failed ({code}) in run {text}:\n{errors}')
		from . import engine
		index = int(text.split()[0])
		trace = engine.generate(self.module, self.seed, index, self.tier)
		result, again, errors_again = run_single(self.prop, 'replay', {'trace': trace}, self.scratch, timeout=2 * STALL)
		if result is not None and result.get('result') is not None:
			return {'violation': result['result'], 'index': index, 'trace': trace, 'executed': [index]}
		if again in (0, 70):
			raise RuntimeError(f'worker ended with {code} in run {index}, not reproducible alone ({again}):\n{errors}\n{errors_again}')
		return {
			'violation': {'kind': 'process-died', 'message': f'the process ended or hung ({code}, alone: {again}): {errors_again[-500:]}'},
			'index': index, 'trace': trace, 'executed': [index], 'final': True
		}

	def aggregate(self, results):
		total = {
			'evaluations': 0, 'events': 0, 'steps': 0, 'sim_time': 0, 'log': 0, 'truncated': False, 'counters': {},
			'states': set(), 'points': set(), 'distinct': set(), 'samples': []
		}
		for result in results:
			for key in ('evaluations', 'events', 'steps', 'sim_time'):
				total[key] += result['done'][key]
			total['log'] = (total['log'] + result['done']['log']) % (1 << 64)
			total['truncated'] |= result['done']['truncated']
			for key, value in result['counters'].items():
				total['counters'][key] = total['counters'].get(key, 0) + value
			for key in ('states', 'points', 'distinct'):
				total[key].update(result[key])
			total['samples'].extend(result['samples'])
		total['samples'].sort(key=lambda sample: sample['run'])
		return total

	def report_violation(self, found):
		"""Shrinks a violation, makes sure that its replay file reproduces it in a fresh process, and writes the file."""
		kind = found['violation']['kind']
		task = {'trace': found['trace']}
		notes = []
		violation = found['violation']
		if not found.get('final'):
			result, code, _ = run_single(self.prop, 'replay', task, self.scratch)
			reproduced = result is not None and result.get('result') is not None
			if reproduced:
				kind = result['result']['kind']
				shrunk, code, _ = run_single(
					self.prop, 'shrink', dict(task, kind=kind), self.scratch, seconds=45, timeout=120
				)
				if shrunk is not None and 'trace' in shrunk:
					again, _, _ = run_single(self.prop, 'replay', {'trace': shrunk['trace']}, self.scratch)
					if again is not None and again.get('result') is not None and again['result']['kind'] == kind:
						task = {'trace': shrunk['trace']}
						violation = again['result']
						notes.append(f'minimised in {shrunk["attempts"]} attempts')
			else:
				task, notes = self.with_prelude(found, notes)
		folder = os.path.join(VERIF, 'evidence', 'replay')
		os.makedirs(folder, exist_ok=True)
		path = os.path.join(folder, f'{self.prop}-{digest(task)}.json')
		with open(path, 'w') as file:
			json.dump(dict(
				task, property=self.prop, seed=self.seed, run=found['index'], violation=violation, notes=notes
			), file, indent=1)
			file.write('\n')
		return path, violation

	def with_prelude(self, found, notes):
		"""The violation needs something that earlier runs left behind in the process."""
		from . import engine
		executed = found['executed'][:-1]
		deadline = time.monotonic() + 90

		def fails(indexes):
			if time.monotonic() > deadline:
				return False
			prelude = [engine.generate(self.module, self.seed, i, self.tier) for i in indexes]
			result, _, _ = run_single(self.prop, 'replay', {'trace': found['trace'], 'prelude': prelude}, self.scratch)
			return result is not None and result.get('result') is not None

		if not fails(executed):
			return {'trace': found['trace']}, notes + ['NOT reproduced in a fresh process']
		size = max(1, len(executed) // 2)
		while size >= 1:
			position = 0
			while position < len(executed):
				candidate = executed[:position] + executed[position + size:]
				if fails(candidate):
					executed = candidate
				else:
					position += size
			size //= 2
		prelude = [engine.generate(self.module, self.seed, i, self.tier) for i in executed]
		return {'trace': found['trace'], 'prelude': prelude}, notes + [
			'needs what earlier runs in the same process left behind: they are the prelude'
		]

	def evidence(self, total, wall, violations):
		module = self.module
		faults = {k[6:]: v for k, v in sorted(total['counters'].items()) if k.startswith('fault:')}
		others = {k: v for k, v in sorted(total['counters'].items()) if not k.startswith('fault:')}
		hours = max(wall, 1e-6) / 3600
		coverage = {
			'evaluations': total['evaluations'],
			'distinct_nontrivial': len(total['distinct']),
			'rule': module.RULE,
			'samples': total['samples'][:3] or [{'note': 'no short sample in this run'}],
			'simulated_runs_per_hour': int(total['evaluations'] / hours),
			'seeds_per_hour': int(total['evaluations'] / hours),
			'simulated_time': {
				'unit': getattr(module, 'TIME_UNIT', 'steps executed inside the library under the simulator (it has no clock)'),
				'amount': total['sim_time'] or total['steps'], 'library_steps': total['steps']
			},
			'faults_injected': faults,
			'workload': others,
			'distinct_states': {'measure': getattr(module, 'STATES', 'contents (nodes and edges) the graphs went through'), 'count': len(total['states'])},
			'distinct_fault_points': {
				'measure': getattr(module, 'POINTS', 'places (function, line) in the library at which a fault or a thread switch fell'),
				'count': len(total['points'])
			},
			'events_logged': total['events'],
			'log_digest': f'{total["log"]:016x}',
			'planned_runs': self.runs,
			'truncated_by_time': total['truncated'],
			'workers': self.jobs,
			'real_components': module.REAL,
			'stubbed_components': module.STUB
		}
		document = {
			'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': module.LEVEL, 'coverage': coverage,
			'assumptions': getattr(module, 'ASSUMPTIONS', []), 'wall_s': round(wall, 2), 'violations': violations
		}
		os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
		path = os.path.join(VERIF, 'evidence', f'{self.prop}.json')
		with open(path + '.tmp', 'w') as file:
			json.dump(document, file, indent=1)
			file.write('\n')
		os.replace(path + '.tmp', path)


def known_findings(prop):
	with open(os.path.join(VERIF, 'known_findings.json')) as file:
		return [finding for finding in json.load(file)['open'] if finding['property'] == prop]


def check(args):
	begin = time.monotonic()
	seed = int(args.seed if args.seed is not None else os.environ.get('VERIF_SEED', '1') or 1)
	tier = args.tier or os.environ.get('VERIF_TIER') or 'quick'
	print(f'property={args.property} VERIF_SEED={seed} tier={tier}', flush=True)
	job = Check(args.property, tier, seed, args.jobs, args.runs, args.seconds)
	try:
		known = known_findings(args.property)
		for finding in known:
			result, _, _ = run_single(args.property, 'replay', {'trace': finding['trace']}, job.scratch)
			if result is not None and result.get('result') is not None:
				print(f'KNOWN-FINDING: property={args.property} {finding["what"]}', flush=True)
		total, found = job.batch()
		if found is None:
			job.evidence(total, time.monotonic() - begin, 0)
			print(
				f'held on {total["evaluations"]} simulated runs ({len(total["distinct"])} distinct and non-trivial) '
				f'in {time.monotonic() - begin:.1f} s; log digest {total["log"]:016x}'
				+ ('; stopped early by the time limit' if total['truncated'] else '')
			)
			if total['evaluations'] == 0 or not total['distinct']:
				raise RuntimeError('nothing was explored')
			return 0
		path, violation = job.report_violation(found)
		job.evidence(total, time.monotonic() - begin, 1)
		print(f'run {found["index"]}: {violation["kind"]}: {violation["message"][:1500]}')
		print(f'VIOLATION property={args.property} replay={path}', flush=True)
		return 1
	finally:
		job.close()


def replay(args):
	with open(args.replay) as file:
		task = json.load(file)
	scratch = tempfile.mkdtemp(prefix='abstract-sim-replay-')
	try:
		result, code, errors = run_single(task['property'], 'replay', task, scratch)
	finally:
		shutil.rmtree(scratch, ignore_errors=True)
	if result is None:
		print(f'the process ended with {code}: {errors}')
		return 1 if task['violation']['kind'] == 'process-died' else 2
	if result['result'] is None:
		print('the property held on this trace')
		return 0
	print(f'{result["result"]["kind"]}: {result["result"]["message"]}')
	print(f'VIOLATION property={task["property"]} replay={args.replay}')
	return 1


def main():
	parser = argparse.ArgumentParser(description=__doc__)
	parser.add_argument('property', nargs='?')
	parser.add_argument('--tier', choices=('quick', 'thorough'))
	parser.add_argument('--seed', type=int)
	parser.add_argument('--jobs', type=int)
	parser.add_argument('--runs', type=int)
	parser.add_argument('--seconds', type=float)
	parser.add_argument('--replay')
	args = parser.parse_args()
	try:
		sys.exit(replay(args) if args.replay else check(args))
	except Exception:
		import traceback
		traceback.print_exc()
		sys.exit(2)
