"""C18: similarity and comparison go by content, not by history."""
import base64
import copy
import pickle

from .. import gen as g
from ..callbacks import CallerError, Plan, Touchy
from ..child import Helpers
from ..core import Violation, check, expect_equal, short
from ..model import Model, Refused, style_view
from ..mon import BUDGET, STEPPER
from ..sut import Graph
from ..world import World, call, must

ID = 'C18'
LEVEL = 'fault_enumeration'
RUNS = {'quick': 36000, 'thorough': 400000}
LISTS = [('first',), ('second',), ('after',)]
RULE = (
	'one evaluation = two graphs with histories of their own (built in other orders, with detours; or one copied, pickled or '
	'restored in a second process from the other), then seeded edits of either one, often of both; after every edit the graphs, '
	'and all nodes and edges they have in common, are compared in both directions; the last comparison is repeated with the '
	'comparison of the values failing at each call in turn, and interrupted at many steps; non-trivial = the graphs were found '
	'similar at least once and different at least once; distinct = different traces'
)
TECHNIQUE = 'deterministic simulation: two seeded edit histories compared after every step with a reference model; failing and interrupted comparisons'
REAL = [
	'abstract._BasicGraph', 'abstract.Node', 'abstract.Edge', 'abstract._GraphObj', 'abstract.styling',
	'pickle and copy of the standard library', 'a second Python process'
]
STUB = ['values of the caller whose comparison fails', 'delivery of signals and failed allocations']
STATES = 'pairs of contents that were compared'
EXCEPTIONS = {'keyboard': KeyboardInterrupt, 'memory': MemoryError}
STYLES = {
	'node': ({'colour': 'red'}, {'colour': 'blue'}, {'text_size': 14}, {'shape': 'circle'}, {'opacity': 0.5}, {'fill_colour': 'green'}, {'lighter_fill': False}),
	'edge': ({'colour': 'red'}, {'colour': 'blue'}, {'text_size': 14}, {'line_width': 3}, {'opacity': 0.5}, {'text_colour': 'green'}, {'arrow_size': 2})
}
VALUES = (None, 0, 1, 2, 10, -4, 2.5, 'v', 'w', True, '', False, [1], [1, 2], {'touchy': 1}, {'touchy': 2}, {'touchy': 1})


def start_helpers(config):
	return Helpers((1, 77))


def revived(value):
	return Touchy(value['touchy']) if isinstance(value, dict) and 'touchy' in value else value


def plain_op(op):
	"""The call that an operation of a trace describes (values that are not JSON are made anew)."""
	op = copy.deepcopy({key: value for key, value in op.items() if key not in ('side', 'look')})
	if 'value' in op.get('attrs', {}):
		op['attrs']['value'] = revived(op['attrs']['value'])
	if op.get('field') == 'value':
		op['to'] = revived(op['to'])
	for entry in op.get('nodes', []) + op.get('edges', []):
		if 'value' in entry[-1]:
			entry[-1]['value'] = revived(entry[-1]['value'])
	return op


def style(rng, kind):
	return dict(rng.choice(STYLES[kind]), **{'as': rng.choice(('dict', 'object'))})


def vary(rng, config, op):
	"""Values and styles of kinds that the reference model can compare."""
	if op is None:
		return None
	kind = 'node' if op['op'] in ('add', 'bring') or (op['op'] == 'set' and 'name' in op) else 'edge'
	attrs = op.get('attrs')
	if attrs is not None:
		if 'value' in attrs:
			attrs['value'] = rng.choice(VALUES)
		if attrs.get('style') is not None and 'bad' not in attrs['style']:
			attrs['style'] = style(rng, kind)
	if op['op'] == 'set':
		if op['field'] == 'value':
			op['to'] = rng.choice(VALUES)
		elif op['field'] == 'style' and 'bad' not in op['to']:
			op['to'] = style(rng, kind)
		elif op['field'] == 'param':
			op['to'][1] = rng.choice((1, 2, 'x', [1], True, 1.0))
	return op


def detour(rng, model, config):
	"""A history that leads to the same content in another way."""
	ops = []
	made = set()
	nodes = list(model.nodes)
	rng.shuffle(nodes)
	others = [name for name in config['names'] if name not in model.nodes][:2]
	waste = rng.choice((0, 0.3, 0.7))

	def attributes(item, final):
		attrs = {'policy': 'ignore'}
		if item.style is not None and final:
			attrs['style'] = dict(item.style)
		if item.params:
			attrs['params'] = copy.deepcopy(item.params) if final else {key: 'other' for key in item.params}
		if item.value is not None and final:
			attrs['value'] = copy.deepcopy(item.value)
		if not final:
			attrs['value'] = 'not yet'
		if rng.random() < 0.5:
			attrs['label'] = rng.choice(g.LABELS)
		if rng.random() < 0.2:
			attrs['tooltip'] = 'tip'
		return attrs

	def settle(where, item):
		ops.append({'op': 'set', **where, 'field': 'value', 'to': copy.deepcopy(item.value)})
		for key, value in item.params.items():
			ops.append({'op': 'set', **where, 'field': 'param', 'to': [key, copy.deepcopy(value)]})
		if item.style is not None:
			ops.append({'op': 'set', **where, 'field': 'style', 'to': dict(item.style)})

	queue = [('node', name) for name in nodes]
	edges = list(model.edges)
	rng.shuffle(edges)
	while queue or edges:
		ready = [key for key in edges if key[0] in made and key[1] in made]
		if ready and (not queue or rng.random() < 0.5):
			key = ready[0]
			edges.remove(key)
			item, late = model.edges[key], rng.random() < waste
			connect = {'op': 'connect', 'start': key[0], 'end': key[1], 'id': key[2], 'by': rng.choice(('name', 'object', 'to', 'from'))}
			if rng.random() < waste:
				ops.append(dict(connect, attrs={'value': 'wasted'}))
				ops.append({'op': 'disconnect', 'edge': list(key), 'by': rng.choice(('graph', 'self'))})
			ops.append(dict(connect, attrs=attributes(item, not late)))
			if late:
				settle({'edge': list(key)}, item)
		elif queue:
			_, name = queue.pop()
			item, late = model.nodes[name], rng.random() < waste
			if rng.random() < waste:
				ops.append({'op': 'add', 'name': name, 'attrs': {'value': 'wasted', 'params': {'z': 1}}})
				ops.append({'op': 'remove', 'name': name, 'by': 'name'})
			ops.append({'op': 'add', 'name': name, 'attrs': attributes(item, not late)})
			made.add(name)
			if late:
				settle({'name': name}, item)
			if others and rng.random() < waste:
				other = others.pop()
				ops.append({'op': 'add', 'name': other, 'attrs': {}})
				ops.append({'op': 'connect', 'start': other, 'end': name, 'id': None, 'attrs': {}, 'by': 'name'})
				ops.append({'op': 'remove', 'name': other, 'by': 'object'})
	return ops


def gen(rng, index, tier):
	config = g.configuration(rng, max_nodes=rng.choice((3, 5, 7)))
	config['refuse'] = min(config['refuse'], 0.1)
	config['overwrite'] = rng.random() < 0.5
	config['weights']['bring'] = rng.choice((0, 0, 1, 2))
	model = Model(config['overwrite'])
	trace = {
		'overwrite': config['overwrite'], 'flags': {'strict': rng.random() < 0.5, 'ordering': rng.random() < 0.5},
		'first': [], 'second': [], 'after': [], 'cut': rng.randint(0, 999), 'exception': rng.choice(sorted(EXCEPTIONS)),
		'how': rng.choice(('built', 'built', 'built', 'copy', 'pickle', 'process', 'rendered'))
	}
	if trace['how'] == 'rendered':
		config['styles'] = 0.0
	if trace['how'] == 'process':
		trace['helper'] = rng.randrange(2)
	for _ in range(rng.choice((4, 8, 14, 20))):
		op = vary(rng, config, g.next_op(rng, config, model))
		if trace['how'] == 'rendered' and (op.get('field') == 'style' or (op['op'] == 'connect' and len(model.edges) >= 9)):
			continue
		if op['op'] == 'stale':
			continue
		trace['first'].append(op)
		try:
			model.apply(plain_op(op))
		except Refused:
			pass
	if trace['how'] == 'built':
		trace['second'] = detour(rng, as_written(trace), config)
	if trace['how'] == 'process':
		return trace
	sides = {'first': model, 'second': model.clone()}
	pending = []
	for _ in range(rng.choice((2, 5, 8))):
		if pending and rng.random() < 0.7:
			op = pending.pop()
		else:
			side = rng.choice(('first', 'second'))
			if rng.random() < 0.08:
				op = {'op': 'append', 'nodes': [], 'edges': [], 'settings': {rng.choice(('strict', 'ordering')): rng.random() < 0.5}, 'side': side}
			else:
				op = dict(vary(rng, config, g.next_op(rng, config, sides[side])), side=side)
			if op['op'] == 'stale' or (trace['how'] == 'rendered' and op.get('field') == 'style'):
				continue
			if rng.random() < 0.7:
				pending.append(dict(op, side='second' if side == 'first' else 'first'))
		trace['after'].append(op)
		try:
			sides[op['side']].apply(plain_op(op))
		except Refused:
			pass
	return trace


def as_written(trace):
	"""The model after the first history, with values as they stand in the trace."""
	model = Model(trace['overwrite'])
	for op in trace['first']:
		try:
			model.apply(copy.deepcopy(op))
		except Refused:
			pass
	return model


def content(item):
	return item.value, item.params, style_view(item.style)


def similar_items(first, second):
	return first is not None and second is not None and content(first) == content(second)


def similar_nodes(first, second, name):
	if name not in first.nodes or name not in second.nodes or not similar_items(first.nodes[name], second.nodes[name]):
		return False
	ours = {key for key in first.edges if name in key[:2]}
	if ours != {key for key in second.edges if name in key[:2]}:
		return False
	return all(similar_items(first.edges[key], second.edges[key]) for key in ours)


def similar(first, second, flags):
	return (
		set(first.nodes) == set(second.nodes) and flags['first'] == flags['second']
		and all(similar_nodes(first, second, name) for name in first.nodes)
	)


# the key of the edges in the table of nodes
EDGES = object()


class Pair:
	def __init__(self, trace, ctx):
		self.ctx = ctx
		self.worlds = {}
		self.flags = {'first': dict(trace['flags']), 'second': dict(trace['flags'])}
		self.answers = set()
		self.tables = {}

	def compare(self, what, deep=True):
		a, b = self.worlds['first'], self.worlds['second']
		Plan.reset()
		expected = similar(a.model, b.model, self.flags)
		self.answers.add(expected)
		for x, y, order in ((a, b, ''), (b, a, ', the other way round')):
			got = must(lambda: x.graph.is_similar_to(y.graph), f'is_similar_to {what}{order}')
			check(
				bool(got) == expected, 'wrong-answer',
				lambda: f'{what}: the graphs are {"similar" if expected else "different"}, not {got!r}{order}'
			)
		if deep:
			for name in a.model.nodes:
				if name in b.model.nodes:
					self.one(a.nodes[name], b.nodes[name], similar_nodes(a.model, b.model, name), f'{what}: node {name!r}')
			for key in a.model.edges:
				if key in b.model.edges:
					self.one(a.edges[key], b.edges[key], similar_items(a.model.edges[key], b.model.edges[key]), f'{what}: edge {key}')
		self.ctx.log(what, expected)
		self.ctx.count('comparisons: ' + ('similar' if expected else 'different'))
		self.ctx.state(
			[[sorted(map(repr, w.model.nodes)), sorted(map(repr, w.model.edges))] for w in (a, b)], expected
		)
		return expected

	def one(self, mine, theirs, expected, what):
		for x, y in ((mine, theirs), (theirs, mine)):
			got = must(lambda: x.is_similar_to(y), what)
			check(bool(got) == expected, 'wrong-answer', lambda: f'{what}: {"similar" if expected else "different"}, not {got!r}')

	def order(self, what):
		"""Nodes compare in the order in which they were added; they can be kept in sets and dictionaries."""
		for side, world in self.worlds.items():
			must(lambda: self._order(world, self.tables.setdefault(side, {}), f'{what}: {side} graph'), what)

	def _order(self, world, table, what):
		nodes = list(world.graph.nodes)
		for i, x in enumerate(nodes):
			for j, y in enumerate(nodes):
				got = (x < y, x <= y, x == y, x != y, x >= y, x > y)
				expected = (i < j, i <= j, i == j, i != j, i >= j, i > j)
				if tuple(map(bool, got)) != expected:
					expect_equal(got, expected, 'wrong-order', f'{what}: {x} compared with {y}')
			if i == 0:
				expect_equal([n.name for n in sorted(reversed(nodes))], [n.name for n in nodes], 'wrong-order', f'{what}: sorted')
		for name, (node, mark) in [item for item in table.items() if item[0] is not EDGES]:
			if world.nodes.get(name) is node:
				check(hash(node) == mark, 'wrong-order', f'{what}: the hash of {name!r} changed')
				check(node in {node: 1} and len({node, world.graph.get_node(name)}) == 1, 'wrong-order', f'{what}: {name!r} as a key')
			else:
				# it was removed: whatever came since is another one, even under its name
				check(not any(node == other or not node != other for other in nodes), 'wrong-order', f'{what}: {name!r}, which was removed, is equal to a node')
				check(node not in nodes, 'wrong-order', f'{what}: {name!r}, which was removed, is in the list of nodes')
				if name in world.nodes:
					del table[name]
		for node in nodes:
			table.setdefault(node.name, (node, hash(node)))
		check(len(set(nodes)) == len(nodes), 'wrong-order', f'{what}: a set of nodes lost some')
		edges = list(world.graph.edges)
		for i, x in enumerate(edges):
			for j, y in enumerate(edges):
				if (bool(x == y), bool(x != y)) != (i == j, i != j):
					expect_equal((x == y, x != y), (i == j, i != j), 'wrong-order', f'{what}: {x.id} compared with {y.id} (==, !=)')
		marks = {edge.id: (edge, hash(edge)) for edge in edges}
		for key, (edge, mark) in table.get(EDGES, {}).items():
			if world.edges.get(key) is edge:
				check(hash(edge) == mark and marks[key][1] == mark, 'wrong-order', f'{what}: the hash of edge {key} changed')
		table[EDGES] = marks
		check(len(set(edges)) == len(edges), 'wrong-order', f'{what}: a set of edges lost some')


def run(trace, ctx):
	Plan.reset()
	pair = Pair(trace, ctx)
	first = World(trace['flags'], trace['overwrite'], ctx=ctx)
	for op in trace['first']:
		Plan.reset()
		first.apply(plain_op(op))
	how = trace['how']
	if how == 'rendered':
		must(lambda: first.graph.render(view=False), 'render')
		first.model.do_render({})
	if how == 'built':
		second = World(trace['flags'], trace['overwrite'])
		for op in trace['second']:
			second.apply(plain_op(op))
	elif how in ('pickle', 'process'):
		data = must(lambda: pickle.dumps(first.graph), 'pickle')
		if how == 'process':
			elsewhere(trace, first, data, ctx)
		second = World(graph=must(lambda: pickle.loads(data), 'unpickling'), model=first.model.clone())
	else:
		second = World(graph=must(first.graph.copy, 'copy'), model=first.model.clone())
	pair.worlds = {'first': first, 'second': second}
	pair.compare('at first')
	pair.order('at first')
	for i, op in enumerate(trace['after']):
		side = op['side']
		world = pair.worlds[side]
		other = pair.worlds['second' if side == 'first' else 'first']
		world.apply(plain_op(op))
		for key, value in (op.get('settings') or {}).items():
			pair.flags[side][key] = value
		what = f'after call {i} {op}'
		pair.compare(what)
		pair.order(what)
		must(lambda: compare_with_itself(world.graph), what)
	for side, world in pair.worlds.items():
		world.verify(f'at the end, the {side} graph')
	expected = similar(first.model, second.model, pair.flags)
	trouble(trace, pair, expected, ctx)
	ctx.nontrivial = len(first.model.nodes) > 0 and (len(pair.answers) == 2 or not trace['after'])
	if how == 'process':
		ctx.nontrivial = len(first.model.nodes) > 0


def compare_with_itself(graph):
	check(bool(graph.is_similar_to(graph)), 'wrong-answer', 'a graph is not similar to itself')


def elsewhere(trace, world, data, ctx):
	"""The snapshot is compared, in another process, with a graph that was built there."""
	answer = ctx.helpers[trace['helper'] % len(ctx.helpers)].request({
		'property': ID, 'data': base64.b64encode(data).decode(), 'trace': {key: trace[key] for key in ('flags', 'overwrite', 'first')}
	})
	ctx.count('compared in another process')
	check(answer == [True, True, False, False], 'wrong-answer', f'in another process the snapshot and a graph built there: {answer}')


def in_child(request):
	Plan.reset()
	trace = request['trace']
	world = World(trace['flags'], trace['overwrite'])
	for op in trace['first']:
		world.apply(plain_op(op))
	graph = must(lambda: pickle.loads(base64.b64decode(request['data'])), 'unpickling')

	def both():
		return [bool(graph.is_similar_to(world.graph)), bool(world.graph.is_similar_to(graph))]

	result = must(both, 'is_similar_to')
	must(lambda: graph.add_node(name='one more'), 'add_node')
	return result + must(both, 'is_similar_to')


def trouble(trace, pair, expected, ctx):
	"""The comparison of values fails at each call in turn; the comparison is interrupted at many steps."""
	a, b = pair.worlds['first'], pair.worlds['second']
	Plan.reset()
	before = [a.observe(), b.observe()]
	Plan.reset()
	must(lambda: a.graph.is_similar_to(b.graph), 'is_similar_to')
	calls = Plan.calls

	def same(what):
		Plan.reset()
		expect_equal([a.observe(), b.observe()], before, 'comparison-changed', what)
		Plan.reset()
		got = must(lambda: a.graph.is_similar_to(b.graph), what)
		check(bool(got) == expected, 'wrong-answer', f'{what}: later answer {got!r}')

	for k in range(1, min(calls, 12) + 1):
		Plan.reset(fail_at=k)
		result, error = call(lambda: a.graph.is_similar_to(b.graph))
		fired = Plan.fired
		Plan.reset()
		what = f'comparison of values failing at call {k}'
		if fired:
			ctx.fault('comparison of values failed')
			check(isinstance(error, CallerError), 'error-lost', f'{what}: gave {short(error or result, 200)}')
		else:
			check(error is None and bool(result) == expected, 'wrong-answer', f'{what}, which was not reached: {short(error or result, 200)}')
	if calls:
		same('after failed comparisons')
	exception = EXCEPTIONS[trace['exception']]
	STEPPER.fine()
	_, error = STEPPER.run(lambda: a.graph.is_similar_to(b.graph), limit=BUDGET)
	steps = STEPPER.count
	stride = max(1, steps // 8)
	for k in range(1 + trace['cut'] % stride, steps + 1, stride):
		result, error = STEPPER.run(
			lambda: a.graph.is_similar_to(b.graph), limit=BUDGET, target=k, exception=exception('injected by the simulator')
		)
		if STEPPER.fired is None:
			continue
		ctx.fault(f'{exception.__name__} in is_similar_to')
		ctx.points.add(STEPPER.fired)
		check(isinstance(error, exception), 'error-lost', f'interrupted comparison gave {short(error or result, 200)}')
	STEPPER.coarse()
	same('after interrupted comparisons')
	for side, world in pair.worlds.items():
		world.verify_queries(f'after interrupted comparisons, the {side} graph')
