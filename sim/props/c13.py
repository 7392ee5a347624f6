"""C13: read-only use of one graph is safe from many threads."""
import copy

from .. import gen as g
from .. import program as p
from ..callbacks import Plan
from ..child import Helpers
from ..core import Violation, check, expect_equal
from ..mon import STEPPER
from ..sched import Scheduler, gen_plan, resolve
from .c12 import difference, hash_of

ID = 'C13'
LEVEL = 'exploration'
RUNS = {'quick': 4500, 'thorough': 55000}
LISTS = [('program', 'ops'), ('threads',), ('threads', '*'), ('plans',), ('plans', '*'), ('switches',)]
RULE = (
	'one evaluation = a graph built by a seeded program (edits, removals, ingested styles, renders, copies), then two to four real '
	'threads that ask it seeded questions under four seeded schedules with the turn passing at lines or single instructions inside the '
	'library; every answer is compared with the one a single thread gets in a pristine process, and the graph and every container '
	'handed out before are compared afterwards; non-trivial = at least one switch happened in the middle of a call; distinct = '
	'different traces'
)
TECHNIQUE = 'deterministic simulation of thread schedules over one shared graph; answers against a single thread in a pristine process'
REAL = ['the whole package abstract', 'colouration', 'threads of the operating system (one at a time)', 'copy and pickle', 'a pristine second process']
STUB = ['thread scheduler']
STATES = 'interleavings: sequences of (step, thread) at which the turn passed on'
POINTS = 'places (function, line or instruction) in the library at which the turn passed on'
HASH_SEEDS = (0,)
HEAVY = ('content', 'copy', 'pickle', 'filter', 'merge', 'graph of it')


def start_helpers(config):
	return Helpers(HASH_SEEDS)


def gen(rng, index, tier):
	names = rng.choice((list('abcdef'), [1, 2, 3, 4, 5, 6], ['n1', 'n2', 'n3', 'n4', 'n5']))
	if rng.random() < 0.5:
		program = p.gen_focused(rng, names, [], rng.choice(('render', 'append', 'dot')))
	else:
		program = p.gen_program(rng, names, [], rng.choice((6, 10, 16)), share_styles=False)
	program['ops'] = [op for op in program['ops'] if op['op'] not in ('ask', 'random', 'outline', 'lists', 'object', 'merge', 'filter')]
	questions = p.SHARED_QUESTIONS
	pool = rng.sample(questions, rng.choice((1, 2))) if rng.random() < 0.6 else questions
	if rng.random() < 0.15:
		pool = ('dot', 'dot as set', 'source', 'settings')
	threads = [
		[rng.choice(pool) for _ in range(rng.choice((1, 1, 2, 3)))] for _ in range(rng.choice((2, 2, 3, 4)))
	]
	if len(pool) < 3 and set(pool) & set(HEAVY):
		threads = [asked[:1] for asked in threads[:3]]
	return {'program': program, 'threads': threads, 'plans': [gen_plan(rng) for _ in range(4)], 'instructions': rng.random() < 0.3, 'first': rng.randint(0, 3)}


def build(trace):
	player = p.Player(trace['program'])
	for op in trace['program']['ops']:
		player.do(op)
	return player


def in_child(request):
	STEPPER.watch = False
	STEPPER.off()

	def work():
		graph = build(request['trace']).graph
		before = p.ask(graph, 'content')
		answers = {}
		for what in request['questions']:
			answers[what] = p.ask(graph, what)
		return before, answers
	return p.quietly(work)


def containers(graph):
	"""What a caller may have been holding: containers, and what each held."""
	held = [
		graph.nodes, graph.edges, graph.edges_dict, graph.roots, graph.leaves, graph.absolute_roots, graph.loop_nodes, graph.node_styles,
		graph.edge_styles, graph.nodes_dict
	]
	for node in graph.nodes:
		held += [
			node.children, node.parents, node.siblings, node.co_parents, node.edges, node.ancestors, node.descendants, node.outward_edges,
			node.outward_edges_dict, node.inward_edges_dict, graph.get_inward_edges(node), graph.get_outward_edges(node),
			graph.get_edges(node), graph.get_spouses(node), node.outward_edge_ids, node.inward_edge_ids
		]
		for found in (graph.get_ancestors(node), graph.get_descendants(node)):
			held += [found] + list(found.values())
	return [(container, freeze(container)) for container in held]


def freeze(container):
	if isinstance(container, dict):
		return [(key, id(value)) for key, value in container.items()]
	return [id(value) for value in container]


def run(trace, ctx):
	Plan.reset()
	questions = sorted({what for thread in trace['threads'] for what in thread})
	before, expected = ctx.helpers[0].request({
		'property': ID, 'fork': True, 'trace': {'program': trace['program']}, 'questions': questions
	})
	player = p.quietly(lambda: build(trace))
	graph = player.graph
	held = containers(graph)
	same(p.ask(graph, 'content'), before, 'before', trace, ctx)
	STEPPER.threads(trace['instructions'])

	def asking(asked):
		return lambda: [p.ask(graph, what) for what in asked]

	schedules = [trace['switches']] if 'switches' in trace else None
	if schedules is None:
		rehearsal = Scheduler([asking(asked) for asked in trace['threads']], rehearse=True)
		results = p.quietly(rehearsal.run)
		verify(results, trace, expected, 'one after another', dict(trace, switches=[]), ctx)
		schedules = [resolve(plan, rehearsal) for plan in trace['plans']]
	for switches in schedules:
		resolved = {key: value for key, value in trace.items() if key != 'plans'}
		resolved['switches'] = switches
		ctx.resolved = resolved
		scheduler = Scheduler([asking(asked) for asked in trace['threads']], switches, first=trace['first'] % max(1, len(trace['threads'])))
		results = p.quietly(scheduler.run)
		ctx.nontrivial = ctx.nontrivial or scheduler.switched > 0
		ctx.fault('thread switch inside a call', scheduler.switched)
		ctx.points |= scheduler.points
		ctx.state(scheduler.trail)
		ctx.count('schedules')
		ctx.count('questions', sum(map(len, trace['threads'])))
		what = f'interleaved ({scheduler.switched} switches)'
		verify(results, trace, expected, what, resolved, ctx)
		same(p.quietly(lambda: p.ask(graph, 'content')), before, f'the graph after questions, {what}', trace, ctx)
		for container, content in held:
			expect_equal(freeze(container), content, 'container-changed', f'a container handed out before the questions, {what}')
	ctx.resolved = None


def same(got, expected, what, trace, ctx):
	if got != expected:
		_, text = difference([got], [expected])
		raise Violation('graph-changed', f'{what}: {text}')


def verify(results, trace, expected, what, resolved, ctx):
	for i, ((answers, error), asked) in enumerate(zip(results, trace['threads'])):
		if error is not None:
			ctx.resolved = resolved
			if isinstance(error, Violation):
				raise Violation(error.kind, f'{what}, thread {i}: {error.message}')
			raise Violation('unexpected-error', f'{what}, thread {i} asking {asked} raised {type(error).__name__}: {error}')
		for question, answer in zip(asked, answers):
			if answer != expected[question]:
				ctx.resolved = resolved
				_, text = difference([answer], [expected[question]])
				raise Violation('wrong-answer', f'{what}, thread {i}, {question!r}: {text}')
		ctx.log(what, i, hash_of(answers))
