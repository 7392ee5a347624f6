"""Basics of the simulator: violations, the context of one run, digests.

One simulated run is `run(trace, ctx)`: a pure function of the trace (JSON) and the code of /repo.  All random choices are
made beforehand, by `gen(rng, ...)`, from one PRNG seeded with VERIF_SEED, the property and the number of the run.
"""
import hashlib
import json
import os
import random

# a scratch copy can be named for experiments; the registered checks run on /repo
REPO = os.environ.get('ABSTRACT_SIM_REPO', '/repo').rstrip('/') + '/'


class Violation(Exception):
	"""The code under test broke the property."""

	def __init__(self, kind, message):
		super().__init__(f'{kind}: {message}')
		self.kind = kind
		self.message = message


# what a harness meets when the code under test answers with something else than it can interpret
ODD = (LookupError, AttributeError, TypeError, ValueError, ArithmeticError, AssertionError)


def as_violation(error):
	"""The violation behind an exception that escaped from a run: it came out of the code under test, or out of code of the
	harness that could not interpret an answer.  None if it is trouble of the harness or of the machine."""
	frames = []
	trace = error.__traceback__
	while trace is not None:
		frames.append(f'{trace.tb_frame.f_code.co_filename}:{trace.tb_lineno}')
		trace = trace.tb_next
	inside = [frame for frame in frames if frame.startswith(REPO)]
	text = f'{type(error).__name__}: {short(str(error), 300)}'
	if inside and isinstance(error, Exception) and not isinstance(error, OSError):
		return Violation('unexpected-error', f'a call raised {text} (at {inside[-1][len(REPO):]})')
	if isinstance(error, ODD):
		return Violation('odd-answer', f'an answer could not be interpreted: {text} (at {os.path.basename(frames[-1])})')
	return None


class StepBudgetExceeded(BaseException):
	"""The code under test executed more steps than a terminating call could need (bounded liveness)."""


class SimAbort(BaseException):
	"""Ends the threads of a simulated run that is given up."""


def rng_for(seed, prop, index):
	return random.Random(f'{seed}/{prop}/{index}')


def encoded(obj):
	try:
		text = json.dumps(obj, sort_keys=True, default=repr)
	except TypeError:  # keys of several types
		text = json.dumps(with_text_keys(obj), sort_keys=True, default=repr)
	return text.encode()


def with_text_keys(obj):
	if isinstance(obj, dict):
		return {repr(key): with_text_keys(value) for key, value in obj.items()}
	if isinstance(obj, (list, tuple)):
		return [with_text_keys(value) for value in obj]
	return obj


def digest(obj):
	return hashlib.sha256(encoded(obj)).hexdigest()[:16]


class Context:
	"""Collects what one simulated run did; never draws random numbers, never reads a clock."""

	def __init__(self, scratch=None, helpers=None):
		self.counters = {}
		self.states = set()
		self.points = set()
		self.steps = 0
		self.sim_time = 0
		self.events = 0
		self._hash = hashlib.sha256()
		self.scratch = scratch
		self.helpers = helpers
		self.resolved = None  # a more explicit form of the trace, for the replay file

	def count(self, kind, n=1):
		self.counters[kind] = self.counters.get(kind, 0) + n

	def fault(self, kind, n=1):
		self.count('fault:' + kind, n)

	def log(self, *event):
		"""The event log of the run: only its digest is kept."""
		self.events += 1
		self._hash.update(encoded(event))

	def state(self, *what):
		self.states.add(digest(what))

	@property
	def log_digest(self):
		return self._hash.hexdigest()[:16]


def check(condition, kind, message):
	if not condition:
		raise Violation(kind, message() if callable(message) else message)


def expect_equal(got, expected, kind, what):
	if got != expected:
		raise Violation(kind, f'{what}: got {short(got)}, expected {short(expected)}{first_difference(got, expected)}')


def short(obj, limit=600):
	text = repr(obj)
	return text if len(text) <= limit else text[:limit] + '...'


def first_difference(got, expected, path=''):
	if type(got) is not type(expected):
		return f' (differs at {path or "top"})'
	if isinstance(got, dict):
		for key in list(expected) + [k for k in got if k not in expected]:
			if key not in got or key not in expected:
				return f' (differs at {path}[{key!r}]: {"missing" if key not in got else "extra"})'
			if got[key] != expected[key]:
				return first_difference(got[key], expected[key], f'{path}[{key!r}]') or ''
		if list(got) != list(expected):
			return f' (order differs at {path or "top"}: {short(list(got), 200)} / {short(list(expected), 200)})'
	elif isinstance(got, (list, tuple)):
		for i, (a, b) in enumerate(zip(got, expected)):
			if a != b:
				return first_difference(a, b, f'{path}[{i}]')
		if len(got) != len(expected):
			return f' (differs at {path or "top"}: lengths {len(got)} / {len(expected)})'
	return f' (differs at {path or "top"}: {short(got, 200)} / {short(expected, 200)})'
