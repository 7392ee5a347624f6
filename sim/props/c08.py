"""C08: the same calls give the same graph in every process and schedule, and random generation keeps its laws."""
import random

from .. import gen as g
from .. import program as p
from ..callbacks import Plan
from ..child import Helpers
from ..core import Violation, check, expect_equal
from ..mon import STEPPER
from ..sched import Scheduler, gen_plan, resolve
from ..sut import Graph
from ..world import call, observe, observe_fully, settings
from .c12 import difference, hash_of

ID = 'C08'
LEVEL = 'exploration'
RUNS = {'quick': 1800, 'thorough': 25000}
LISTS = [('program', 'ops'), ('before', 'ops'), ('noise',), ('plans',), ('plans', '*'), ('switches',)]
RULE = (
	'one evaluation = a seeded program (edits, merges, filters, seeded random graphs, renders, conversions, outlines) whose transcript is '
	'compared between this process and pristine processes with other hash seeds, other states of the global random generator and other '
	'graphs made before, and under two seeded schedules with a second thread that draws from and reseeds the global random generator '
	'and generates graphs itself; or the laws of Graph.random for seeded arguments, with the same thread at work; non-trivial = the '
	'program has at least two calls, or the random graph at least two nodes; distinct = different traces'
)
TECHNIQUE = 'deterministic simulation: the same program under different hash seeds, random states, process histories and thread schedules; transcripts compared, random generation against its laws'
REAL = ['the whole package abstract', 'colouration', 'the random module', 'pristine second processes with other hash seeds', 'threads of the operating system (one at a time)']
STUB = ['thread scheduler', 'the other user of the global random generator']
STATES = 'interleavings: sequences of (step, thread) at which the turn passed on'
POINTS = 'places (function, line or instruction) in the library at which the turn passed on'
HASH_SEEDS = (0, 1, 4242)


def start_helpers(config):
	return Helpers(HASH_SEEDS)


# generation
def gen(rng, index, tier):
	trace = {
		'noise': gen_noise(rng), 'plans': [gen_plan(rng) for _ in range(2)], 'instructions': rng.random() < 0.3,
		'first': rng.randint(0, 1), 'offers': rng.choice((0xffffffff, 0x55555555, rng.getrandbits(32))), 'random state': rng.randint(0, 10 ** 6), 'helpers': rng.sample(range(len(HASH_SEEDS)), 2)
	}
	if rng.random() < 0.25:
		arguments = p.random_arguments(rng, seeded=rng.random() < 0.7)
		arguments['num_nodes'] = rng.choice((0, 1, 2, 3, 4, 5) if arguments.get('cycle') else (0, 1, 2, 3, 4, 6, 9, 11))
		return dict(trace, mode='laws', arguments=arguments)
	names = rng.choice((list('abcdefgh'), ['n1', 'n2', 'n3', 'n4', 'n5', 'n6', 'n7'], [3, 1, 'x', 'y', 2, 'z'], ['beta', 'alpha', 'delta', 'gamma', 'x']))
	if rng.random() < 0.5:
		kind = rng.choice(('merge', 'merge', 'render', 'render', 'random', 'append', 'filter', 'dot', 'copy', 'graph of it', 'object', 'merge', 'pickle', 'roots'))
		program = p.gen_focused(rng, names, [], kind)
	else:
		program = p.gen_program(rng, names, [], rng.choice((4, 8, 12)), share_styles=False)
	if rng.random() < 0.4:
		program['arguments']['stylist'] = 'random'
	if rng.random() < 0.5:
		program['ops'].append({'op': 'random', 'arguments': p.random_arguments(rng)})
	before = p.gen_focused(rng, names, [], rng.choice(('render', 'merge', 'random', 'append')))
	return dict(trace, mode='program', program=program, before=before)


def gen_noise(rng):
	"""What another thread does with the global random generator meanwhile."""
	result = []
	for _ in range(rng.randint(1, 6)):
		kind = rng.choice(('draw', 'draw', 'reseed', 'graph', 'graph', 'wild', 'render'))
		if kind == 'draw':
			result.append(['draw', rng.randint(1, 3)])
		elif kind == 'reseed':
			result.append(['reseed', rng.choice((0, 1, 42, 7))])
		elif kind == 'render':
			result.append(['render', rng.randint(1, 3)])
		else:
			result.append([kind, dict(p.random_arguments(rng, seeded=kind == 'graph'), num_nodes=rng.randint(1, 4))])
	return result


class SharedRandom:
	"""The seam of the global random generator: the turn may pass on before and after every access to it."""
	NAMES = (
		'seed', 'getstate', 'setstate', 'random', 'uniform', 'shuffle', 'choice', 'choices', 'sample', 'randint', 'randrange', 'getrandbits',
		'gauss', 'triangular', 'betavariate', 'normalvariate'
	)

	def __enter__(self):
		self.originals = {name: getattr(random, name) for name in self.NAMES}
		for name, function in self.originals.items():
			setattr(random, name, self.wrap(name, function))

	@staticmethod
	def wrap(name, function):
		def access(*args, **kwargs):
			offer(name)
			result = function(*args, **kwargs)
			offer(name)
			return result
		return access

	def __exit__(self, *_):
		for name, function in self.originals.items():
			setattr(random, name, function)


def offer(name):
	if STEPPER.scheduler is not None:
		STEPPER.scheduler.offer(f'random.{name}')


# execution
def make_noise(noise):
	"""Returns what it drew, in order."""
	drawn = []
	for kind, what in noise:
		if kind == 'draw':
			drawn += [random.random() for _ in range(what)]
		elif kind == 'reseed':
			random.seed(what)
		elif kind == 'render':
			graph = Graph(stylist='random')
			for i in range(what):
				graph.add_node(name=i)
			graph.render(view=False)
		else:
			Graph.random(**what)
	return drawn


def expected_noise(noise, state):
	"""What it draws if nobody else touches the generator; None if that is not determined."""
	generator = random.Random(state)
	drawn = []
	for kind, what in noise:
		if kind == 'draw':
			drawn += [generator.random() for _ in range(what)]
		elif kind == 'reseed':
			generator.seed(what)
		elif kind == 'wild':
			return None
	return drawn


def play(program, state):
	"""The transcript of a program, which has to leave the random numbers of its caller alone."""
	random.seed(state)
	player = p.Player(program)
	result = []
	for op in program['ops']:
		before = random.getstate()
		result.append(player.do(op))
		check(random.getstate() == before, 'caller-randomness', lambda: f'{op} disturbed the random numbers of the caller')
	return result + [p.ask(player.graph, what) for what in ('content', 'neighbours', 'relatives', 'roots', 'tree', 'dot')]


def in_child(request):
	STEPPER.watch = False
	STEPPER.off()
	if request['before'] is not None:
		p.quietly(lambda: p.play(request['before']))
	if 'arguments' in request:
		return p.quietly(lambda: generated(request['arguments'], request['state'], True))
	return p.quietly(lambda: play(request['program'], request['state']))


def generated(arguments, state, quiet=False):
	"""A random graph, in full."""
	if state is not None:
		random.seed(state)
	before = random.getstate()
	graph = Graph.random(**arguments)
	if quiet and 'seed' in arguments:
		check(random.getstate() == before, 'caller-randomness', 'Graph.random with a seed disturbed the random numbers of the caller')
	return p.text_of(observe_fully(graph))


def run(trace, ctx):
	Plan.reset()
	saved = random.getstate()
	try:
		if trace['mode'] == 'laws':
			run_laws(trace, ctx)
		else:
			run_program(trace, ctx)
	finally:
		random.setstate(saved)


def run_program(trace, ctx):
	program = trace['program']
	ctx.nontrivial = len(program['ops']) > 1
	state = trace['random state']
	expected = p.quietly(lambda: play(program, state))
	ctx.log('here', hash_of(expected))
	again = p.quietly(lambda: play(program, state + 1))
	compare([again], [expected], 'the same calls again, with another state of the random generator')
	for i, before in zip(trace['helpers'], (None, trace['before'])):
		other = ctx.helpers[i].request({
			'property': ID, 'fork': True, 'program': program, 'state': state + 2 + i, 'before': before
		})
		ctx.fault('other process, hash seed and random state')
		compare([other], [expected], f'a process with hash seed {HASH_SEEDS[i]}')
	interleave(trace, ctx, lambda: p.play(program), expected[:-5])


def compare(got, expected, what):
	for a, b in zip(got, expected):
		if a != b:
			position, text = difference(a, b)
			raise Violation('not-reproducible', f'{what}: answer {position} differs: {text}')


def interleave(trace, ctx, task, expected):
	"""Runs the task beside the other user of the random generator; expected = None if it need not be reproducible."""
	noise = trace['noise']
	state = trace['random state']
	drawn = expected_noise(noise, state)
	if expected is None:
		drawn = None
	STEPPER.threads(trace['instructions'])
	schedules = [trace['switches']] if 'switches' in trace else None
	tasks = [task, lambda: make_noise(noise)]
	results = []
	if schedules is None:
		random.seed(state)
		rehearsal = Scheduler(tasks, rehearse=True)
		results.append(verify(p.quietly(rehearsal.run), expected, drawn, 'one after another', dict(trace, switches=[]), ctx))
		schedules = [resolve(plan, rehearsal) for plan in trace['plans']]
	for switches in schedules:
		resolved = {key: value for key, value in trace.items() if key != 'plans'}
		resolved['switches'] = switches
		scheduler = Scheduler(tasks, switches, first=trace['first'], offers=trace['offers'])
		random.seed(state)
		try:
			with SharedRandom():
				outcome = p.quietly(scheduler.run)
		except Violation:
			ctx.resolved = resolved
			raise
		ctx.fault('thread switch inside a call', scheduler.switched)
		ctx.points |= scheduler.points
		ctx.state(scheduler.trail)
		ctx.count('schedules')
		results.append(verify(outcome, expected, drawn, f'interleaved ({scheduler.switched} switches)', resolved, ctx))
	return results


def verify(results, expected, drawn, what, resolved, ctx):
	for (_, error), who in zip(results, ('the program', 'the other thread')):
		if error is not None:
			ctx.resolved = resolved
			if isinstance(error, Violation):
				raise error
			raise Violation('unexpected-error', f'{what}, {who} raised {type(error).__name__}: {error}')
	got, noise = results[0][0], results[1][0]
	if expected is not None and got != expected:
		ctx.resolved = resolved
		compare([got], [expected], f'{what} with a thread that uses the random generator')
	if drawn is not None and noise != drawn:
		ctx.resolved = resolved
		raise Violation('caller-randomness', f'{what}: another thread drew {noise} instead of {drawn}')
	ctx.log(what, hash_of(got if expected is not None else None))
	return got


# the laws of random generation
def run_laws(trace, ctx):
	arguments = trace['arguments']
	seeded = 'seed' in arguments
	ctx.nontrivial = arguments['num_nodes'] > 1
	state = trace['random state']
	random.seed(state)
	before = random.getstate()
	graph, error = call(lambda: Graph.random(**arguments))
	if error is not None:
		raise Violation('unexpected-error', f'Graph.random({arguments}) raised {type(error).__name__}: {error}')
	if seeded:
		check(random.getstate() == before, 'caller-randomness', f'Graph.random({arguments}) disturbed the random numbers of the caller')
	laws(graph, arguments)
	expected = p.text_of(observe_fully(graph))
	if seeded:
		for i in trace['helpers']:
			other = ctx.helpers[i].request({
				'property': ID, 'fork': True, 'arguments': arguments, 'state': state + 1 + i, 'before': None
			})
			ctx.fault('other process, hash seed and random state')
			compare([[other]], [[expected]], f'Graph.random({arguments}) in a process with hash seed {HASH_SEEDS[i]}')

	def task():
		results = []
		for _ in range(2):
			made = Graph.random(**arguments)
			laws(made, arguments)
			results.append(p.text_of(observe_fully(made)))
		return results
	interleave(trace, ctx, task, [expected] * 2 if seeded else None)


def laws(graph, arguments):
	n, start = arguments['num_nodes'], arguments.get('start_index', 1)
	what = f'Graph.random({arguments})'
	names = [str(i) for i in range(start, start + n)]
	expect_equal([node.name for node in graph.nodes], names, 'law', f'{what}: nodes')
	edges = [(edge.start.name, edge.end.name) for edge in graph.edges]
	check(len(set(edges)) == len(edges), 'law', f'{what}: connected a pair twice: {edges}')
	cycle = arguments.get('cycle', False)
	allowed = {(a, b) for i, a in enumerate(names) for j, b in enumerate(names) if cycle or i < j}
	check(set(edges) <= allowed, 'law', lambda: f'{what}: edges {sorted(set(edges) - allowed)} are not allowed')
	probability = arguments.get('connection_probability', 0.5)
	if probability <= 0:
		check(not edges, 'law', f'{what}: edges {edges}')
	elif probability >= 1:
		expect_equal(set(edges), allowed, 'law', f'{what}: edges')
	found = settings(graph)
	expect_equal(found['strict'], arguments.get('strict', False), 'law', f'{what}: strict')
	expect_equal(found['ordering'], arguments.get('ordering', True), 'law', f'{what}: ordering')
