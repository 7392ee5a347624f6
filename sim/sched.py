"""The seam for threads: real threads of which exactly one has the turn; the simulator decides after which step it passes on.

A step is an event of the stepper (line, call, return, jump, or a single instruction) in code of /repo.  The switch list of a
run names the steps (counted per thread) at which a thread passes the turn on, and to whom; otherwise it keeps the turn until
it ends.  A rehearsal without switches tells which functions each thread goes through and when, so that switches can be aimed
at all functions evenly, not only at those that take most steps.
"""
import threading

from .core import SimAbort, StepBudgetExceeded, Violation
from .mon import STEPPER

# real locks, taken before the code under test may get cooperative ones
_Lock = threading.Lock
WATCHDOG = 90


class Task:
	def __init__(self, index, function):
		self.index = index
		self.function = function
		self.turn = _Lock()
		self.turn.acquire()
		self.done = False
		self.result = None
		self.error = None
		self.thread = None
		self.steps = 0
		self.switches = []
		self.next = 0
		self.map = {}


class Scheduler:
	def __init__(self, functions, switches=(), limit=5_000_000, rehearse=False, first=0, offers=0):
		"""switches: [[thread, step, pick], ...]."""
		self.tasks = [Task(i, function) for i, function in enumerate(functions)]
		for thread, step, pick in sorted(map(list, switches)):
			if thread < len(self.tasks):
				self.tasks[thread].switches.append((step, pick))
		for task in self.tasks:
			task.next = 0 if rehearse else task.switches[0][0] if task.switches else limit
		self.rehearse = rehearse
		self.first = first
		self.offers = offers
		self.offered = 0
		self.limit = limit
		self.points = set()
		self.switched = 0
		self.waited = 0
		self.waited_at = None
		self.trail = []
		self.aborted = None
		self.finished = _Lock()
		self.finished.acquire()
		self._idents = {}
		self.current = None

	# called in the threads
	def manages_current(self):
		return threading.get_ident() in self._idents

	def step(self, task, code, argument):
		"""The current thread has come to a step that matters."""
		if task.steps > self.limit:
			self._abort(StepBudgetExceeded(f'{task.steps} steps in {code.co_qualname}'))
			raise SimAbort('too many steps')
		if self.rehearse:
			task.map.setdefault(code, []).append(task.steps)
			return
		while task.steps >= task.next and task.switches:
			_, pick = task.switches.pop(0)
			task.next = task.switches[0][0] if task.switches else self.limit
			others = [other for other in self.tasks if not other.done and other is not task]
			if others:
				self.points.add((code.co_qualname, argument))
				self.switched += 1
				self._pass(task, others[pick % len(others)])
				if self.aborted is not None:
					raise SimAbort('the run is given up')

	def offer(self, what):
		"""A place outside the library, in a seam, at which the turn may pass on: the bits of `offers` decide."""
		task = self._idents.get(threading.get_ident())
		if task is None or self.rehearse or self.aborted is not None:
			return
		self.offered += 1
		others = [other for other in self.tasks if not other.done and other is not task]
		if others and self.offers >> (self.offered % 32) & 1:
			self.points.add((what, None))
			self.switched += 1
			self._pass(task, others[self.offered % len(others)])
			if self.aborted is not None:
				raise SimAbort('the run is given up')

	def blocked(self):
		"""The current thread waits for a lock that another one holds."""
		task = self._idents[threading.get_ident()]
		if self.aborted is not None:
			raise SimAbort('the run is given up')
		others = [other for other in self.tasks if not other.done and other is not task]
		total = self.total
		self.waited = self.waited + 1 if total == self.waited_at else 1
		self.waited_at = total
		if not others or self.waited > 4 * len(self.tasks):
			self._abort(Violation('deadlock', 'every thread waits for a lock'))
			raise SimAbort('deadlock')
		self._pass(task, others[task.index % len(others)])
		if self.aborted is not None:
			raise SimAbort('the run is given up')

	def _pass(self, task, other):
		self.trail.append((self.total, other.index))
		self.current = other
		other.turn.release()
		task.turn.acquire()

	def _abort(self, error):
		self.aborted = error

	def _body(self, task):
		self._idents[threading.get_ident()] = task
		task.turn.acquire()
		try:
			if self.aborted is None:
				task.result = task.function()
		except SimAbort:
			pass
		except BaseException as error:
			task.error = error
		finally:
			task.done = True
			del self._idents[threading.get_ident()]
			others = [other for other in self.tasks if not other.done]
			if others:
				other = others[0]
				self.trail.append((self.total, other.index))
				self.current = other
				other.turn.release()
			else:
				self.finished.release()

	@property
	def total(self):
		return sum(task.steps for task in self.tasks)

	# called by the simulator
	def run(self):
		"""Runs all tasks; returns [(result, error)]."""
		for task in self.tasks:
			task.thread = threading.Thread(target=self._body, args=(task,), daemon=True)
		STEPPER.scheduler = self
		STEPPER._listen(True)
		try:
			for task in self.tasks:
				task.thread.start()
			self.current = self.tasks[self.first]
			self.current.turn.release()
			if not self.finished.acquire(timeout=WATCHDOG):
				raise Violation('deadlock', f'thread {self.current.index} does not give the turn back')
			for task in self.tasks:
				task.thread.join()
		finally:
			STEPPER._listen(False)
			STEPPER.scheduler = None
			STEPPER.total += self.total
		if self.aborted is not None:
			raise self.aborted
		return [(task.result, task.error) for task in self.tasks]


def resolve(plan, rehearsal):
	"""[[thread, function, place, pick], ...] (all but pick in millionths) -> [[thread, step, pick], ...]."""
	result = []
	for thread, function, place, pick in plan:
		task = rehearsal.tasks[thread * len(rehearsal.tasks) // MILLION]
		if not task.map:
			continue
		if function is None:
			step = 1 + place * task.steps // MILLION
		else:
			functions = sorted(task.map, key=lambda code: (code.co_filename, code.co_firstlineno, code.co_qualname))
			steps = task.map[functions[function * len(functions) // MILLION]]
			step = steps[place * len(steps) // MILLION]
		result.append([task.index, step, pick])
	return sorted(result)


MILLION = 1_000_000


def gen_plan(rng):
	"""A seeded schedule: few switches aimed at functions, many switches anywhere, or a dense burst around one place."""
	kind = rng.choice(('few', 'few', 'some', 'many', 'burst', 'clash', 'clash', 'clash'))
	if kind == 'clash':
		# all threads pass the turn on in the same function
		function = rng.randrange(MILLION)
		near = rng.random() < 0.5
		place = rng.randrange(MILLION)
		return [
			[
				rng.randrange(MILLION), function,
				min(MILLION - 1, max(0, place + rng.randint(-50000, 50000))) if near else rng.randrange(MILLION), rng.randint(0, 7)
			] for _ in range(rng.choice((2, 3, 6)))
		]
	if kind == 'burst':
		thread, centre = rng.randrange(MILLION), rng.randrange(MILLION)
		width = rng.choice((300, 3000, 30000))
		return [
			[rng.randrange(MILLION), None, min(MILLION - 1, max(0, centre + rng.randint(-width, width))), rng.randint(0, 7)]
			for _ in range(rng.choice((4, 12, 40)))
		]
	number = {'few': rng.randint(1, 4), 'some': rng.randint(5, 20), 'many': rng.choice((40, 120))}[kind]
	anywhere = rng.choice((0.0, 0.2, 1.0)) if kind != 'few' else 0.0
	return [
		[
			rng.randrange(MILLION), None if rng.random() < anywhere else rng.randrange(MILLION), rng.randrange(MILLION),
			rng.randint(0, 7)
		] for _ in range(number)
	]
