"""The seam for interrupts, step budgets and thread switches: every step executed inside the library.

A step is an event of sys.monitoring (a line, a function entered or left, a jump, and optionally a single instruction) in
code that belongs to /repo.  The simulator's own code and third-party code produce no steps.
"""
import sys
import threading

from .core import REPO, SimAbort, StepBudgetExceeded, Violation

_mon = sys.monitoring
_E = _mon.events
_TOOL = 4

_state = threading.local()


class Stepper:
	"""Counts steps and decides what happens at each."""

	def __init__(self):
		self.active = False
		self.count = 0
		self.limit = None
		self.target = None
		self.exception = None
		self.fired = None
		self.owner = None
		self.scheduler = None
		self._events = 0
		self._ready = False
		self.total = 0
		self.watch = True

	def _start(self):
		if not self._ready:
			_mon.use_tool_id(_TOOL, 'abstract simulator')
			self._ready = True

	def _listen(self, on):
		step = self._step if self.scheduler is None else self._turn
		# events without a callback cost next to nothing, unlike changing the set of events
		self.active = on
		for event in (_E.PY_START, _E.PY_RETURN, _E.LINE, _E.JUMP, _E.INSTRUCTION):
			if event & self._events:
				_mon.register_callback(_TOOL, event, step if on else None)

	def _step(self, code, *args):
		if not code.co_filename.startswith(REPO):
			return _mon.DISABLE
		if not self.active:
			return None
		if threading.get_ident() != self.owner:
			return None
		self.count += 1
		if self.target is not None and self.count == self.target:
			self.fired = (code.co_qualname, sys._getframe(1).f_lineno)
			self.target = None
			raise self.exception
		if self.limit is not None and self.count > self.limit:
			raise StepBudgetExceeded(f'{self.count} steps in {code.co_qualname}')

	def _turn(self, code, *args):
		if not code.co_filename.startswith(REPO):
			return _mon.DISABLE
		task = self.scheduler.current
		task.steps += 1
		if task.steps >= task.next:
			self.scheduler.step(task, code, args[0] if args else 0)

	def _set(self, events):
		if events != self._events:
			self._start()
			_mon.set_events(_TOOL, events)
			self._events = events

	def fine(self, instructions=False):
		"""Every line, call, return and jump is a step."""
		self._set(_E.PY_START | _E.PY_RETURN | _E.LINE | _E.JUMP | (_E.INSTRUCTION if instructions else 0))

	def threads(self, instructions=False):
		"""Steps at which a thread may pass the turn on: every line and return, or every single instruction."""
		self._set(_E.INSTRUCTION if instructions else _E.LINE | _E.PY_RETURN)

	def coarse(self):
		"""Only calls and jumps are steps: enough to notice a call that does not end."""
		self._set(_E.PY_START | _E.JUMP)

	def idle(self):
		if self.active:
			self._listen(False)

	def off(self):
		self._listen(False)
		if self._ready:
			self._set(0)

	def run(self, function, limit=None, target=None, exception=None):
		"""Runs function; at its target-th step raises exception.  Returns (result, error)."""
		self.count = 0
		self.limit = limit
		self.target = target
		self.exception = exception
		self.fired = None
		self.owner = threading.get_ident()
		self._listen(True)
		try:
			try:
				return function(), None
			finally:
				self._listen(False)
				self.total += self.count
		except (StepBudgetExceeded, SimAbort, Violation, SystemExit):
			raise
		except BaseException as error:
			return None, error


STEPPER = Stepper()
BUDGET = 3_000_000
