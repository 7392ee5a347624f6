"""Executes traces: one simulated run, shrinking, replay."""
import copy
import importlib
import time

from .core import Context, StepBudgetExceeded, Violation, as_violation, digest, rng_for, short
from .mon import STEPPER


def load(prop):
	return importlib.import_module(f'.props.{prop.lower()}', __package__)


def generate(module, seed, index, tier):
	trace = module.gen(rng_for(seed, module.ID, index), index, tier)
	trace['property'] = module.ID
	return trace


def execute(module, trace, scratch=None, helpers=None, watch=True):
	"""One simulated run.  Returns (context, violation or None)."""
	ctx = Context(scratch=scratch, helpers=helpers)
	ctx.nontrivial = False
	violation = None
	before = STEPPER.total
	STEPPER.watch = watch
	mode = getattr(module, 'STEPPING', 'coarse')
	if mode == 'fine':
		STEPPER.fine()
	elif watch:
		STEPPER.coarse()
	else:
		STEPPER.off()
	try:
		module.run(copy.deepcopy(trace), ctx)
	except Violation as error:
		violation = error
	except StepBudgetExceeded as error:
		violation = Violation('hang', f'a call did not end within its step budget ({error})')
	except Exception as error:
		violation = as_violation(error)
		if violation is None:
			raise
	finally:
		STEPPER.idle()
		STEPPER.scheduler = None
		ctx.steps += STEPPER.total - before
	ctx.log('end', violation.kind if violation else None)
	return ctx, violation


def get_path(trace, path):
	for key in path:
		if isinstance(trace, dict) and key not in trace:
			return None
		trace = trace[key]
	return trace


def list_paths(module, trace):
	"""The paths of all lists of the trace that may be shortened ('*' stands for every index)."""
	result = []

	def expand(prefix, pattern):
		if not pattern:
			if isinstance(get_path(trace, prefix), list):
				result.append(tuple(prefix))
			return
		if pattern[0] == '*':
			container = get_path(trace, prefix)
			if isinstance(container, list):
				for i in range(len(container)):
					expand(prefix + [i], pattern[1:])
		else:
			container = get_path(trace, prefix)
			if isinstance(container, dict) and pattern[0] in container:
				expand(prefix + [pattern[0]], pattern[1:])

	for pattern in module.LISTS:
		expand([], list(pattern))
	return result


def shrink(module, trace, kind, seconds=40, scratch=None, helpers=None):
	"""Drops and simplifies steps of the trace while the same kind of violation persists."""
	deadline = time.monotonic() + seconds
	tried = set()
	attempts = 0

	def fails(candidate):
		nonlocal attempts
		key = digest(candidate)
		if key in tried or time.monotonic() > deadline:
			return False
		tried.add(key)
		attempts += 1
		try:
			_, violation = execute(module, candidate, scratch, helpers)
		except Exception:
			return False
		return violation is not None and violation.kind == kind

	if 'only' in trace:
		free = {key: value for key, value in trace.items() if key != 'only'}
		if fails(free):
			trace = free
	changed = True
	while changed and time.monotonic() < deadline:
		changed = False
		for path in list_paths(module, trace):
			size = max(1, len(get_path(trace, path) or []) // 2)
			while size >= 1:
				position = 0
				while True:
					current = get_path(trace, path)
					if current is None or position >= len(current):
						break
					candidate = copy.deepcopy(trace)
					del get_path(candidate, path)[position:position + size]
					if fails(candidate):
						trace = candidate
						changed = True
					else:
						position += size
				size //= 2
		for candidate in simpler(module, trace):
			if fails(candidate):
				trace = candidate
				changed = True
				break
	ctx, _ = execute(module, trace, scratch, helpers)
	return ctx.resolved or trace, attempts


def simpler(module, trace):
	"""Simpler variants: operations without their attributes, smaller numbers, and what the property itself suggests."""
	if hasattr(module, 'simplify'):
		yield from module.simplify(trace)
	for path in list_paths(module, trace):
		for i, op in enumerate(get_path(trace, path)):
			if isinstance(op, dict):
				if op.get('attrs'):
					for key in list(op['attrs']):
						candidate = copy.deepcopy(trace)
						del get_path(candidate, path)[i]['attrs'][key]
						yield candidate
				if op.get('by') not in (None, 'name', 'graph'):
					candidate = copy.deepcopy(trace)
					del get_path(candidate, path)[i]['by']
					yield candidate
				if op.get('id') is not None:
					candidate = copy.deepcopy(trace)
					get_path(candidate, path)[i]['id'] = None
					yield candidate


def describe(violation):
	return {'kind': violation.kind, 'message': violation.message[:3000]}
