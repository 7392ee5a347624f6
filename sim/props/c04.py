"""C04: ancestry, distances, loops, roots and tree match the current edges."""
import sys

from .. import gen as g
from ..core import Violation, check, expect_equal, short
from ..model import Model, Refused
from ..mon import BUDGET, STEPPER
from ..reach import Reach
from ..world import World, call, must, observe

ID = 'C04'
LEVEL = 'fault_enumeration'
STEPPING = 'fine'
RUNS = {'quick': 11000, 'thorough': 130000}
LISTS = [('history',)]
RULE = (
	'one evaluation = one seeded edit history (with loops, diamonds, parallel edges, removals); after every edit all ancestry, '
	'distance, loop, root and tree questions about all nodes are compared with reachability computed from the model; then one '
	'question is interrupted at up to 60 seeded steps, and asked with the stack ending at every depth; non-trivial = at least two '
	'edges; distinct = different traces'
)
TECHNIQUE = 'deterministic simulation: queries along seeded edit histories, interrupted at each step and at each stack depth; graph-theory reference'
REAL = ['abstract._BasicGraph', 'abstract._group_by_distance', 'abstract.Node', 'abstract.Edge']
STUB = ['interrupts', 'depth of the stack']
EXCEPTIONS = {'keyboard': KeyboardInterrupt, 'memory': MemoryError, 'timeout': TimeoutError}
# many times what a question about the densest graphs needs
DENSE = 20_000_000
QUESTIONS = (
	'descendants', 'ancestors', 'descendants by distance', 'ancestors by distance', 'in loop', 'same loop', 'loop nodes', 'roots', 'tree',
	'edge in loop', 'number of descendants'
)


def gen_dense(rng):
	"""A graph with very many paths, some of which may be closed to loops."""
	if rng.random() < 0.6:
		layers, width = rng.choice(((18, 2), (20, 2), (12, 3)))
		names = [[f'{letter}{layer}' for letter in 'abc'[:width]] for layer in range(layers)]
		pairs = [(a, b) for layer in range(layers - 1) for a in names[layer] for b in names[layer + 1]]
		names = sum(names, [])
	else:
		names = [f'n{i}' for i in range(rng.randint(20, 23))]
		pairs = [(a, b) for i, a in enumerate(names) for b in names[i + 1:]]
	leave = rng.choice((0, 0, 0.03))
	pairs = [pair for pair in pairs if rng.random() >= leave]
	if rng.random() < 0.4:
		pairs += [rng.sample(names, 2)[::-1] for _ in range(rng.choice((1, 3)))]
	if rng.random() < 0.3:
		rng.shuffle(pairs)
	ops = [{'op': 'add', 'name': name, 'attrs': {}} for name in names]
	ops += [{'op': 'connect', 'start': a, 'end': b, 'id': None, 'by': 'name', 'attrs': {'policy': 'ignore'}} for a, b in pairs]
	if rng.random() < 0.3:
		ops.append({'op': 'remove', 'name': rng.choice(names), 'by': 'name'})
	return {'dense': True, 'overwrite': False, 'history': ops, 'about': [0, -1, rng.randint(1, 20)], 'aboutness': rng.randint(0, 20)}


def gen(rng, index, tier):
	if index % 300 == 9:
		return gen_dense(rng)
	config = g.configuration(rng, max_nodes=8)
	config['names'] = [name if name != '' else 'empty' for name in config['names']]  # the tree would have empty lines
	if rng.random() < 0.1:
		config['names'] = g.TWINS[:rng.randint(2, 8)]
	config['refuse'] = rng.choice((0.0, 0.0, 0.1))
	config['styles'] = 0.0
	config['loops'] = rng.choice((0.0, 0.1, 0.4, 1.0))
	config['weights']['set'] = 0
	config['weights']['bring'] = rng.choice((0, 0, 1))
	config['attributes'] = rng.choice((0.0, 0.2))
	many = rng.random() < 0.05
	if many:
		config['names'] = g.MANY[:rng.randint(9, 16)]
	if many or rng.random() < 0.5:
		ops, model = g.grow(rng, config, rng.randint(9, 16) if many else rng.randint(3, 8), rng.randint(3, 16))
		more, model = g.history(rng, config, rng.randint(0, 8), model)
		first = len(ops)
		ops += more
	else:
		ops, model = g.history(rng, config, rng.choice((6, 12, 24)))
		first = 0
	return {
		'overwrite': config['overwrite'], 'history': g.seldom(rng, ops), 'first': first, 'question': rng.choice(QUESTIONS),
		'about': [rng.randint(0, 7), rng.randint(0, 7)], 'exception': rng.choice(sorted(EXCEPTIONS)),
		'cuts': rng.randint(0, 2 ** 30), 'depths': rng.random() < 0.5
	}


def run(trace, ctx):
	world = World(overwrite=trace['overwrite'], ctx=ctx)
	if trace.get('dense'):
		run_dense(world, trace, ctx)
		return
	for i, op in enumerate(trace['history']):
		world.apply(op)
		if (i + 1 >= trace['first'] and op.get('look', True)) or i + 1 == len(trace['history']):
			must(lambda: verify(world, f'after call {i} {op}'), f'after call {i} {op}: questions')
			ctx.state(sorted(map(repr, world.model.edges)))
	model = world.model
	ctx.nontrivial = len(model.edges) >= 2
	if len(model.nodes) == 0:
		return
	faults(world, trace, ctx)


def run_dense(world, trace, ctx):
	"""Every question is answered within a bounded number of steps, also where there are very many paths."""
	for op in trace['history']:
		world.apply(op)
	model = world.model
	ctx.nontrivial = len(model.edges) >= 2
	if not model.nodes:
		return
	reach = Reach(model.nodes, model.edges)
	listed = list(model.nodes)

	def within(question, about):
		what = f'{question} about {about}'
		answer, error = STEPPER.run(ask(world, question, about), limit=DENSE)
		if error is not None:
			raise Violation('unexpected-error', f'{what} raised {type(error).__name__}: {error}')
		ctx.count('questions about dense graphs')
		return answer, what
	STEPPER.coarse()
	for first in trace['about']:
		name = listed[first % len(listed)]
		about = [first, trace['aboutness']]
		other = listed[about[1] % len(listed)]
		for question, found in (('descendants', reach.descendants[name]), ('ancestors', reach.ancestors[name])):
			answer, what = within(question, about)
			once(answer, what)
			same(without(answer, name), without(found, name), what)
			answer, what = within(f'{question} by distance', about)
			same(
				{d: without(group, name) for d, group in answer.items() if without(group, name)},
				{d: without(group, name) for d, group in reach.groups(found, name).items()}, what
			)
		answer, what = within('number of descendants', about)
		same(answer - (name in reach.descendants[name] and answer > len(without(reach.descendants[name], name))), len(without(reach.descendants[name], name)), what)
		answer, what = within('in loop', about)
		same(bool(answer), reach.in_loop(name), what)
		if other != name:
			answer, what = within('same loop', about)
			same(bool(answer), reach.same_loop(name, other), what)
	answer, what = within('loop nodes', [0, 0])
	same(answer, [name for name in listed if reach.in_loop(name)], what)
	answer, what = within('roots', [0, 0])
	verify_roots(answer, reach, what)
	text, what = within('tree', [0, 0])
	verify_tree(text, model, answer, what)
	ctx.log('steps', STEPPER.count)


def names(nodes):
	return [node.name for node in nodes]


def same(got, expected, what):
	if got != expected:
		expect_equal(got, expected, 'query', what)


def without(found, name):
	return sorted((node for node in found if node != name), key=repr)


def once(listed, what):
	check(len(set(listed)) == len(listed), 'query', f'{what} lists a node twice: {listed}')


def verify(world, what):
	graph, model = world.graph, world.model
	reach = Reach(model.nodes, model.edges)
	for name in model.nodes:
		node = world.nodes[name]
		for argument in (node, name):
			for question, found, ask in (
				('descendants', reach.descendants[name], graph.get_descendants),
				('ancestors', reach.ancestors[name], graph.get_ancestors)
			):
				listed = names(ask(argument, distance=False))
				once(listed, f'{what}: {question} of {name!r}')
				same(without(listed, name), without(found, name), f'{what}: {question} of {name!r}')
				check(name not in listed or name in found, 'query', f'{what}: {name!r} among its {question}')
				grouped = ask(argument)
				once([n for group in grouped.values() for n in names(group)], f'{what}: {question} of {name!r} by distance')
				same(
					{d: without(names(group), name) for d, group in grouped.items() if without(names(group), name)},
					{d: without(group, name) for d, group in reach.groups(found, name).items()},
					f'{what}: {question} of {name!r} by distance'
				)
				for d, group in grouped.items():
					check(
						name not in names(group) or found.get(name) == d, 'query',
						f'{what}: {name!r} among its {question} at distance {d}'
					)
		listed = names(node.descendants)
		same(without(listed, name), without(reach.descendants[name], name), f'{what}: descendants of {name!r}')
		same(node.num_descendants, len(listed), f'{what}: num_descendants of {name!r}')
		same(without(names(node.ancestors), name), without(reach.ancestors[name], name), f'{what}: ancestors of {name!r}')
		same(bool(node.is_in_loop()), reach.in_loop(name), f'{what}: is_in_loop of {name!r}')
		same(bool(graph.is_node_in_loop(name)), reach.in_loop(name), f'{what}: is_node_in_loop({name!r})')
		for other in model.nodes:
			if other != name:
				together = reach.same_loop(name, other)
				same(bool(node.is_in_loop_with(world.nodes[other])), together, f'{what}: {name!r} in a loop with {other!r}')
				same(bool(graph.are_nodes_in_same_loop(name, other)), together, f'{what}: {name!r} and {other!r} in the same loop')
	same(names(graph.loop_nodes), [n for n in model.nodes if reach.in_loop(n)], f'{what}: loop_nodes')
	for key, edge in world.edges.items():
		same(bool(edge.is_in_loop()), reach.same_loop(key[0], key[1]), f'{what}: is_in_loop of {key}')
	verify_roots(names(graph.roots), reach, what)
	verify_tree(graph.get_tree_str(), model, names(graph.roots), f'{what}: tree')


def verify_roots(roots, reach, what):
	once(roots, f'{what}: roots')
	covered = set(roots)
	for root in roots:
		check(root in reach.nodes, 'query', f'{what}: root {root!r} is not in the graph')
		covered.update(reach.descendants[root])
		for other in roots:
			check(
				other == root or other not in reach.descendants[root], 'query',
				f'{what}: root {other!r} can be reached from root {root!r}'
			)
	check(covered == set(reach.nodes), 'query', f'{what}: {set(reach.nodes) - covered} cannot be reached from the roots {roots}')


MARKS = '\u2514\u251C\u2500\u2502 '


def verify_tree(text, model, roots, what):
	"""Every edge is drawn once, from its start to its end; every root begins a tree."""
	labels = {str(item.label) if item.label else str(name): name for name, item in model.nodes.items()}
	if len(labels) < len(model.nodes):
		labels = None
	stack, drawn, tops = [], [], []
	for line in text.split('\n'):
		if line == '':
			continue
		label = line.lstrip(MARKS)
		depth = (len(line) - len(label)) // 2
		label = label.rstrip('*')
		check(depth <= len(stack), 'query', f'{what}: line {line!r} hangs in the air')
		del stack[depth:]
		if depth:
			drawn.append((stack[-1], label))
		else:
			tops.append(label)
		stack.append(label)

	def label_of(name):
		return str(model.nodes[name].label) if model.nodes[name].label else str(name)

	same(tops, [label_of(root) for root in roots], f'{what}: roots')
	same(
		sorted(drawn), sorted((label_of(key[0]), label_of(key[1])) for key in model.edges), f'{what}: edges'
	)


def ask(world, question, about):
	"""A function that asks one question, and gives a plain answer."""
	graph = world.graph
	listed = list(world.nodes.values())
	node, other = listed[about[0] % len(listed)], listed[about[1] % len(listed)]
	edges = list(world.edges.values())
	if question == 'descendants':
		return lambda: names(graph.get_descendants(node, distance=False))
	if question == 'ancestors':
		return lambda: names(graph.get_ancestors(node, distance=False))
	if question == 'descendants by distance':
		return lambda: {d: names(group) for d, group in graph.get_descendants(node).items()}
	if question == 'ancestors by distance':
		return lambda: {d: names(group) for d, group in graph.get_ancestors(node).items()}
	if question == 'in loop':
		return node.is_in_loop
	if question == 'same loop':
		return lambda: node.is_in_loop_with(other)
	if question == 'loop nodes':
		return lambda: names(graph.loop_nodes)
	if question == 'roots':
		return lambda: names(graph.roots)
	if question == 'number of descendants':
		return lambda: node.num_descendants
	if question == 'edge in loop' and edges:
		return edges[about[1] % len(edges)].is_in_loop
	return graph.get_tree_str


def depth():
	frame, n = sys._getframe(), 0
	while frame is not None:
		frame, n = frame.f_back, n + 1
	return n


def faults(world, trace, ctx):
	question = ask(world, trace['question'], trace['about'])
	exception = EXCEPTIONS[trace['exception']]
	what = f'{trace["question"]} about {trace["about"]}'
	expected, error = STEPPER.run(question, limit=BUDGET)
	if error is not None:
		raise Violation('unexpected-error', f'{what} raised {type(error).__name__}: {error}')
	steps = STEPPER.count
	ctx.log('question', what, expected, steps)
	before = world.observe()
	targets = trace.get('only')
	if targets is None:
		stride = max(1, steps // 60)
		targets = range(1 + trace['cuts'] % stride, steps + 1, stride)
	for k in targets:
		result, error = STEPPER.run(question, limit=BUDGET, target=k, exception=exception('injected by the simulator'))
		fired = STEPPER.fired
		if fired is None:
			continue
		ctx.fault(f'{exception.__name__} in a query')
		ctx.points.add(fired)
		where = f'{what} interrupted at step {k} (in {fired[0]} line {fired[1]})'
		try:
			if error is None:
				check(result == expected, 'partial-answer', f'{where} answered {short(result)} instead of {short(expected)}')
			again = must(question, f'{where}, asked again')
			check(again == expected, 'query-left-trace', f'{where}, asked again: {short(again)} instead of {short(expected)}')
		except Violation:
			ctx.resolved = dict(trace, only=[k], depths=False)
			raise
	if trace['depths']:
		STEPPER.off()
		exhausted = True
		limit = sys.getrecursionlimit()
		room = 1
		while exhausted and room < 400:
			error, result = None, None
			try:
				sys.setrecursionlimit(depth() + 3 + room)
				result = question()
			except RecursionError as e:
				error = e
			except BaseException as e:
				sys.setrecursionlimit(limit)
				raise Violation('error-lost', f'{what} with {room} frames left raised {type(e).__name__}: {e}')
			finally:
				sys.setrecursionlimit(limit)
			if error is None:
				check(result == expected, 'partial-answer', f'{what} with {room} frames left answered {short(result)} instead of {short(expected)}')
				exhausted = False
			else:
				ctx.fault('stack exhausted in a query')
				again = must(question, f'{what}, asked again after the stack was exhausted')
				check(again == expected, 'query-left-trace', f'{what}, asked again after {room} frames were too few: {short(again)}')
			room += 1
	expect_equal(world.observe(), before, 'query-changed-graph', f'{what}, interrupted')
	must(lambda: verify(world, f'{what}, after all interrupts'), 'questions after interrupts')
