"""C11: traversing remote objects is complete, bounded and never silently cut short."""
from .. import gen as g
from ..callbacks import CallerError, Plan
from ..core import Violation, check, expect_equal, short
from ..reach import distances, neighbours
from ..sut import Graph, get_ancestors, get_descendants
from ..world import call, observe, settings

ID = 'C11'
LEVEL = 'fault_enumeration'
RUNS = {'quick': 60000, 'thorough': 700000}
LISTS = [('edges',), ('calls',), ('lost',)]
RULE = (
	'one evaluation = a seeded network of objects (cycles, loops, diamonds, repeated answers, new proxies for every answer) and a seeded '
	'sequence of traversals and conversions over it; each call is made with every object answering, then with the answer to each of its '
	'requests in turn failing, and repeated until it succeeds, also with several answers failing one after another and with a traversal '
	'going on inside an answer; results, requests and errors are compared with a breadth-first reference; non-trivial = the network has '
	'at least one link; distinct = different traces'
)
TECHNIQUE = 'deterministic simulation of a network of remote objects with every answer failing in turn; results and request log against a breadth-first reference'
REAL = ['abstract.get_ancestors', 'abstract.get_descendants', 'abstract._BasicGraph.from_object', 'abstract.Graph']
STUB = ['the remote objects and their network']
STATES = 'requests (which objects were asked, in which order) up to a failure'
POINTS = 'calls and numbers of the request at which an answer failed'
ERRORS = (CallerError, KeyError, AttributeError, OSError, TimeoutError, ValueError, TypeError, RuntimeError, IndexError, KeyboardInterrupt)


class Network:
	def __init__(self, trace):
		self.trace = trace
		self.names = list(range(trace['size']))
		edges = [tuple(edge) for edge in trace['edges']]
		self.edges = edges
		self.forward = {name: [b for a, b in edges if a == name] for name in self.names}
		self.backward = {name: [a for a, b in edges if b == name] for name in self.names}
		if trace['reversed']:
			for answers in self.backward.values():
				answers.reverse()
		self.objects = {name: Remote(name, self) for name in self.names}
		self.log = []
		self.failing = {}
		self.raised = []
		self.inside = None
		# what objects hand out is theirs
		self.kept = {}

	def __getitem__(self, name):
		return Remote(name, self) if self.trace['proxies'] else self.objects[name]

	def answer(self, name, direction):
		self.log.append((name, direction))
		number = len(self.log)
		error = self.failing.pop(number, None)
		if error is not None:
			self.raised.append(error(f'{direction} of object {name} cannot be had (request {number})'))
			raise self.raised[-1]
		if self.inside is not None and number == self.inside[0]:
			self.nested()
		names = (self.forward if direction == 'children' else self.backward)[name]
		if (name, direction) not in self.kept or self.trace['proxies']:
			self.kept[name, direction] = [self[other] for other in names]
		answer = self.kept[name, direction]
		return tuple(answer) if self.trace['tuples'] else answer

	def nested(self):
		"""While it answers, an object looks around itself."""
		_, request = self.inside
		self.inside = None
		log, self.log = self.log, []
		failing, self.failing = self.failing, {}
		perform(self, request, 'a call made inside an answer')
		self.log, self.failing = log, failing

	def verify(self, what):
		for (name, direction), answer in self.kept.items():
			names = (self.forward if direction == 'children' else self.backward)[name]
			expect_equal([other.name for other in answer], names, 'source-changed', f'{what}: the {direction} that object {name} holds')

	def reset(self):
		self.log = []
		self.failing = {}
		self.raised = []
		self.inside = None


class Remote:
	def __init__(self, name, network):
		self.name = name
		self.network = network

	def __children__(self):
		return self.network.answer(self.name, 'children')

	def __parents__(self):
		return self.network.answer(self.name, 'parents')

	def __eq__(self, other):
		return isinstance(other, Remote) and other.name == self.name

	def __hash__(self):
		return self.name + 100

	def __bool__(self):
		return not self.network.trace['falsy']

	def __str__(self):
		return f'object {self.name}'

	__repr__ = __str__


# generation
def gen(rng, index, tier):
	size = rng.choice((1, 2, 3, 4, 5, 6, 7, 9))
	shape = rng.choice(('random', 'random', 'random', 'chain', 'tree', 'ring', 'layers', 'dense'))
	edges = []
	if shape == 'chain':
		if rng.random() < 0.05:
			size = rng.choice((30, 60, 120))
		edges = [[i, i + 1] for i in range(size - 1)]
	elif shape == 'tree':
		edges = [[rng.randrange(i), i] for i in range(1, size)]
	elif shape == 'ring':
		edges = [[i, (i + 1) % size] for i in range(size)]
	elif shape == 'layers':
		# many ways to the same object
		layers = rng.choice((2, 3, 4, 10)) if rng.random() < 0.15 else rng.choice((2, 3))
		size = 2 * layers
		edges = [[2 * i + a, 2 * i + 2 + b] for i in range(layers - 1) for a in (0, 1) for b in (0, 1)]
	elif shape == 'dense':
		size = min(size, 5)
		edges = [[a, b] for a in range(size) for b in range(size) if a != b and rng.random() < 0.8]
	for _ in range(rng.choice((0, 0, 1, 2, 3)) if shape != 'random' else rng.randint(0, 12)):
		edge = [rng.randrange(size), rng.randrange(size)]
		if edge[0] != edge[1] or rng.random() < 0.3:
			edges.append(edge)
	if rng.random() < 0.5:
		rng.shuffle(edges)
	if rng.random() < 0.85:
		# nothing is named twice in an answer
		edges = [edge for i, edge in enumerate(edges) if edge not in edges[:i]]
	calls = []
	for _ in range(rng.choice((1, 2, 3))):
		calls.append(gen_call(rng, size))
	return {
		'size': size, 'edges': edges, 'calls': calls, 'reversed': rng.random() < 0.5, 'proxies': rng.random() < 0.4, 'tuples': rng.random() < 0.3,
		'falsy': rng.random() < 0.2, 'error': rng.randrange(len(ERRORS)),
		'lost': sorted(rng.randint(1, 12) for _ in range(rng.choice((2, 3, 5)))), 'inside': gen_call(rng, size), 'when': rng.randint(1, 6)
	}


def gen_call(rng, size):
	kind = rng.choice(('ancestors', 'descendants', 'ancestors', 'descendants', 'graph'))
	result = {'kind': kind, 'start': rng.randrange(size)}
	limits = (None, None, 0, 1, 1, 2, 3, 50)
	if kind == 'graph':
		result.update({'max_depth': rng.choice(limits), 'max_height': rng.choice(limits), 'strict': rng.choice((True, False, None))})
	else:
		result.update({'distance': rng.choice((True, False, None)), 'limit': rng.choice(limits)})
	return result


# reference
def reachable(network, start, forward, limit):
	found = distances(neighbours(network.edges, forward), start)
	return {name: d for name, d in found.items() if name != start and (limit is None or d <= limit)}


def make_call(network, request):
	start = network[request['start']]
	if request['kind'] == 'graph':
		arguments = {key: request[key] for key in ('max_depth', 'max_height', 'strict') if request[key] is not None}
		return Graph.from_object(start, **arguments)
	arguments = {} if request['distance'] is None else {'distance': request['distance']}
	if request['kind'] == 'ancestors':
		return get_ancestors(start, **arguments, **({} if request['limit'] is None else {'max_height': request['limit']}))
	return get_descendants(start, **arguments, **({} if request['limit'] is None else {'max_depth': request['limit']}))


def perform(network, request, what):
	"""A call that has to succeed; returns how many requests it made."""
	what = f'{what} {short(request)}'
	before = len(network.log)
	result, error = call(lambda: make_call(network, request))
	if error is not None:
		raise Violation('unexpected-error', f'{what} raised {type(error).__name__}: {error}')
	(verify_graph if request['kind'] == 'graph' else verify_list)(network, request, result, what)
	verify_requests(network, request, network.log[before:], what)
	network.verify(what)
	# the result belongs to the caller
	if request['kind'] != 'graph':
		for group in list(result.values()) if isinstance(result, dict) else ():
			del group[:]
		result.clear()
	network.verify(f'{what}, after its result was emptied')
	return len(network.log) - before


def verify_list(network, request, result, what):
	forward = request['kind'] == 'descendants'
	expected = reachable(network, request['start'], forward, request['limit'])
	if request['distance'] is False:
		check(isinstance(result, list), 'wrong-result', f'{what} gave {short(result)}')
		check_objects(result, what)
		expect_equal(sorted(obj.name for obj in result), sorted(expected), 'wrong-result', what)
		return
	check(isinstance(result, dict), 'wrong-result', f'{what} gave {short(result)}')
	groups = {}
	for name, d in expected.items():
		groups.setdefault(d, []).append(name)
	for group in result.values():
		check_objects(group, what)
	got = {d: sorted(obj.name for obj in group) for d, group in result.items() if group}
	expect_equal(dict(sorted(got.items())), {d: sorted(groups[d]) for d in sorted(groups)}, 'wrong-result', what)


def check_objects(objects, what):
	check(all(isinstance(obj, Remote) for obj in objects), 'wrong-result', f'{what} gave {short(objects)}')


def verify_graph(network, request, graph, what):
	names = {request['start']}
	for forward, limit in ((True, request['max_depth']), (False, request['max_height'])):
		names |= set(reachable(network, request['start'], forward, limit))
	view = observe(graph)
	expect_equal(
		{name: attrs['label'] for name, attrs in sorted(view['nodes'].items())}, {name + 100: f'object {name}' for name in sorted(names)},
		'wrong-result', f'{what}: nodes'
	)
	expected = sorted({(a + 100, b + 100, None) for a, b in network.edges if a in names and b in names})
	expect_equal(sorted(view['edges']), expected, 'wrong-result', f'{what}: edges')
	for name in view['nodes']:
		expect_equal(sorted(view['outward'][name]), [key for key in expected if key[0] == name], 'wrong-result', f'{what}: edges from {name}')
		expect_equal(sorted(view['inward'][name]), [key for key in expected if key[1] == name], 'wrong-result', f'{what}: edges to {name}')
	expect_equal(settings(graph)['strict'], bool(request['strict']), 'wrong-result', f'{what}: strict')


def verify_requests(network, request, log, what):
	if request['kind'] == 'graph':
		return
	forward = request['kind'] == 'descendants'
	asked = [name for name, _ in log]
	check(len(set(asked)) == len(asked), 'asked-twice', f'{what} asked {asked}')
	limit = request['limit']
	near = {request['start']: 0, **reachable(network, request['start'], forward, None)}
	for name in asked:
		check(name in near, 'asked-too-much', f'{what} asked object {name}, which is not related')
		check(limit is None or near[name] < limit, 'asked-too-much', lambda: f'{what} asked object {name} at distance {near[name]}')


# execution
def run(trace, ctx):
	Plan.reset()
	network = Network(trace)
	ctx.nontrivial = len(network.edges) > 0
	for request in trace['calls']:
		network.reset()
		total = perform(network, request, 'call')
		ctx.log(request, network.log)
		ctx.state(network.log)
		ctx.count('calls')
		ctx.count('requests', total)
		stride = max(1, total // 25)
		for k in trace.get('only') or range(1, total + 1, stride):
			try:
				fail(network, request, [k], ERRORS[(k + trace['error']) % len(ERRORS)], ctx)
			except Violation:
				ctx.resolved = dict(trace, only=[k])
				raise
			ctx.points.add((request['kind'], k))
		if total > 1:
			fail(network, request, trace['lost'], ERRORS[trace['error']], ctx)
		network.reset()
		network.inside = (trace['when'], trace['inside'])
		perform(network, request, 'call with a call made inside an answer')
		if network.inside is None:
			ctx.fault('call inside an answer')
	for request in trace['calls']:
		network.reset()
		perform(network, request, 'call after all')


def fail(network, request, lost, error_class, ctx):
	"""Answers get lost, one after another; the call is repeated until it succeeds."""
	network.reset()
	network.failing = {}
	done = 0
	for k in lost:
		# counted from the last failure
		done += k
		network.failing[done] = error_class
	for _ in range(len(lost)):
		before = len(network.raised)
		start = len(network.log)
		what = f'call {short(request)} with lost answers {lost}'
		try:
			result, error = call(lambda: make_call(network, request))
		except KeyboardInterrupt as interrupt:
			result, error = None, interrupt
		network.verify(what)
		if len(network.raised) == before:
			check(error is None, 'unexpected-error', lambda: f'{what} raised {type(error).__name__}: {error}')
			return
		ctx.fault('lost answer')
		check(error is not None, 'error-lost', lambda: f'{what}: no error reached the caller, the call gave {short(result)}')
		check(error is network.raised[-1], 'error-lost', lambda: f'{what}: the caller got {type(error).__name__}: {error}')
		check(len(network.raised) == before + 1, 'error-lost', lambda: f'{what}: went on after an answer was lost')
		verify_requests(network, request, network.log[start:], what)
		ctx.log(what, network.log[start:])
	network.failing = {}
	perform(network, request, f'call repeated after lost answers {lost}')
