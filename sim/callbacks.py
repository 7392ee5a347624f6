"""Simulated code of the caller that has to be importable in every process: label converters, values, combining functions."""


class CallerError(Exception):
	"""Raised by the simulated code of the caller."""


class Plan:
	"""Decides at which of its calls the simulated code of the caller fails."""
	calls = 0
	fail_at = None
	fired = 0
	error = CallerError

	@classmethod
	def reset(cls, fail_at=None, error=CallerError):
		cls.calls = 0
		cls.fired = 0
		cls.fail_at = fail_at
		cls.error = error

	@classmethod
	def call(cls, what):
		cls.calls += 1
		if cls.fail_at is not None and cls.calls == cls.fail_at:
			cls.fired += 1
			raise cls.error(f'{what} of the caller failed at call {cls.calls}')


def upper(label):
	Plan.call('label converter')
	return str(label).upper()


def bracket(label):
	Plan.call('label converter')
	return f'({label})'


def length(label):
	Plan.call('label converter')
	return len(str(label))


CONVERTERS = {None: None, 'upper': upper, 'bracket': bracket, 'length': length}


class Bomb:
	"""A value that can be neither copied nor pickled."""

	def __reduce_ex__(self, protocol):
		raise CallerError('a value of the caller cannot be copied')


class Point:
	"""An ordinary value of the caller."""

	def __init__(self, x):
		self.x = x

	def __eq__(self, other):
		return isinstance(other, Point) and other.x == self.x

	def __hash__(self):
		return hash(('point', self.x))

	def __repr__(self):
		return f'Point({self.x!r})'


class Touchy:
	"""A value of the caller whose comparison can fail."""

	def __init__(self, x):
		self.x = x

	def __eq__(self, other):
		Plan.call('comparison of values')
		return isinstance(other, Touchy) and other.x == self.x

	def __hash__(self):
		return hash(('touchy', self.x))

	def __repr__(self):
		return f'Touchy({self.x!r})'
