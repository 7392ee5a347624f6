"""C09: merging is a union that leaves its operands alone."""
import copy

from .. import gen as g
from ..callbacks import CallerError, Plan
from ..core import Violation, check, expect_equal, short
from ..dot import verify as verify_dot
from ..model import Item, Model, Refused
from ..mon import BUDGET, STEPPER
from ..program import Materials
from ..sut import Graph
from ..world import World, call, make_style, must

ID = 'C09'
LEVEL = 'fault_enumeration'
RUNS = {'quick': 10500, 'thorough': 120000}
LISTS = [('a',), ('b',), ('steps',)]
RULE = (
	'one evaluation = two graphs with seeded histories (edits, refused edits, ingested and shared styles, renders, removals) over '
	'the same names; then seeded merges (either way, with itself, of merges, with six combining functions), edits and renders of all '
	'graphs that exist by then, each compared with its own reference model, and all others compared with what they were before every '
	'step; every merge is repeated with its combining function failing at each of its calls in turn, and some with an interrupt at '
	'many steps; non-trivial = at least one merge of two non-empty graphs; distinct = different traces'
)
TECHNIQUE = 'deterministic simulation: merges of graphs with histories against an ordered-union model; combining function failing at every call, interrupts'
REAL = ['abstract._GraphWithoutDisplay', 'abstract._BasicGraph', 'abstract.Node', 'abstract.Edge', 'abstract.styling', 'colouration']
STUB = ['combining functions of the caller', 'delivery of interrupts']
STATES = 'contents (nodes and edges) of operands and results'
EXCEPTIONS = {'keyboard': KeyboardInterrupt, 'memory': MemoryError}


def default(x, y):
	return y if x is None else x if y is None else x + y


FUNCTIONS = {
	'default': default, 'first': lambda x, y: x, 'second': lambda x, y: y, 'pair': lambda x, y: (x, y), 'text': lambda x, y: f'{x}/{y}',
	'nothing': lambda x, y: None
}


class Failing:
	"""A combining function of the caller, which fails at one of its calls and keeps a record of the others."""

	def __init__(self, function, fail_at=None, error=CallerError):
		self.function = function
		self.fail_at = fail_at
		self.calls = []
		self.error = error

	def __call__(self, x, y):
		self.calls.append((x, y))
		if len(self.calls) == self.fail_at:
			raise self.error('the combining function of the caller')
		return self.function(x, y)


class Side(World):
	def __init__(self, *args, materials=None, **kwargs):
		self.materials = materials or Materials()
		super().__init__(*args, **kwargs)

	def make_style(self, kind, style):
		if style is not None and style.get('as') == 'shared':
			return self.materials.style(kind, style)
		return make_style(kind, style)


class Impossible(Exception):
	"""The values cannot be combined."""


def merged_item(a, b, function):
	if a is None or b is None:
		found = a or b
		return Item({'label': found.label, 'value': found.value, 'style': found.style})
	if function is default:
		try:
			value = default(a.value, b.value)
		except TypeError:
			raise Impossible()
	else:
		value = function(a.value, b.value)
	return Item({'label': a.label or b.label, 'value': value, 'style': a.style if a.style is not None else b.style})


def merge_models(a, b, name):
	"""The ordered union of two graphs."""
	function = FUNCTIONS[name]
	result = Model(a.overwrite or b.overwrite)
	for node in list(a.nodes) + [node for node in b.nodes if node not in a.nodes]:
		result.nodes[node] = merged_item(a.nodes.get(node), b.nodes.get(node), function)
	keys = [key for model in (a, b) for node in model.nodes for key in model.outward(node)]
	for key in keys:
		if key not in result.edges:
			result.edges[key] = merged_item(a.edges.get(key), b.edges.get(key), function)
	return result


def pairs(a, b):
	"""The values that are combined."""
	return (
		[(item.value, b.nodes[name].value) for name, item in a.nodes.items() if name in b.nodes]
		+ [(item.value, b.edges[key].value) for key, item in a.edges.items() if key in b.edges]
	)


# generation
def clean(op):
	"""What a merge says nothing about is left out: parameters, tooltips, freezing."""
	if op['op'] == 'set' and op['field'] in ('param', 'frozen'):
		return None
	if op['op'] == 'stale':
		return None
	for attrs in [op.get('attrs') or {}] + [entry[-1] for entry in op.get('nodes', []) + op.get('edges', [])]:
		attrs.pop('params', None)
		attrs.pop('tooltip', None)
	return op


def next_step(rng, config, model):
	roll = rng.random()
	if roll < 0.08 and len(model.edges) <= 9:
		return {'op': 'render'}
	if roll < 0.14 and not config['share']:
		return restyle(rng, model)
	op = g.append(rng, dict(config, overwrite=model.overwrite), model) if roll < 0.2 else g.next_op(rng, dict(config, overwrite=model.overwrite), model)
	if op['op'] == 'connect' and len(model.edges) >= 9:
		return None
	op = clean(op)
	if op is None:
		return None
	if config['share']:
		for entry in [op.get('attrs')] + [entry[-1] for entry in op.get('nodes', []) + op.get('edges', [])]:
			if entry and entry.get('style') and 'bad' not in entry['style'] and rng.random() < 0.5:
				entry['style'].update({'as': 'shared', 'shared': 0})
	try:
		model.apply(op)
	except Refused:
		if op['op'] == 'append':
			return None
	return op


def restyle(rng, model):
	"""The caller changes a style in place."""
	where = [{'name': name} for name, item in model.nodes.items() if item.style is not None]
	where += [{'edge': list(key)} for key, item in model.edges.items() if item.style is not None]
	return {'op': 'restyle', **rng.choice(where), 'to': rng.choice(g.COLOURS)} if where else None


def gen(rng, index, tier):
	config = g.configuration(rng, max_nodes=rng.choice((3, 5, 7)))
	config['mutable'] = rng.random() < 0.3
	config['blank'] = False
	config['share'] = rng.random() < 0.4
	config['refuse'] = min(config['refuse'], 0.1)
	config['numbers_only'] = rng.random() < 0.6
	trace = {'interrupt': index % 6 == 0, 'exception': rng.choice(sorted(EXCEPTIONS)), 'cut': rng.randint(0, 999), 'steps': []}
	models = {}
	for side in 'ab':
		overwrite = rng.random() < 0.4
		models[side] = Model(overwrite)
		trace[side + '_arguments'] = {'arguments': g.arguments(rng, rng.choice((0.0, 0.5))), 'overwrite': overwrite}
		trace[side] = []
		for _ in range(rng.choice((0, 2, 5, 9, 14))):
			op = next_step(rng, config, models[side])
			if op is not None:
				trace[side].append(op)
	for _ in range(rng.choice((1, 3, 6, 9))):
		if not trace['steps'] or rng.random() < 0.35:
			names = list(models)
			x, y = rng.choice((('a', 'b'), ('a', 'b'), ('b', 'a'), ('a', 'a'), (rng.choice(names), rng.choice(names))))
			function = rng.choice(('default', 'default', 'default', 'plus') + tuple(FUNCTIONS))
			step = {'merge': [x, y], 'function': function}
			try:
				model = merge_models(models[x], models[y], 'default' if function == 'plus' else function)
			except Impossible:
				pass
			else:
				models[f'r{len(models) - 2}'] = model
			trace['steps'].append(step)
		else:
			side = rng.choice(list(models))
			op = next_step(rng, config, models[side])
			if op is not None:
				trace['steps'].append(dict(op, side=side))
	return trace


# execution
def text(obj):
	return repr(obj)


def merging(a, b, name, function=None):
	"""A function that merges."""
	if name == 'plus':
		return lambda: a.graph + b.graph
	if function is None:
		if name == 'default':
			return lambda: a.graph.add(b.graph)
		function = FUNCTIONS[name]
	return lambda: a.graph.add(other=b.graph, add_values_function=function)


def unchanged(worlds, views, what, kind='operand-changed'):
	for name, world in worlds.items():
		if name in views:
			expect_equal(world.observe_fully(), views[name], kind, f'{what}: graph {name}')


def merge(worlds, step, trace, ctx):
	x, y = step['merge']
	if x not in worlds or y not in worlds:
		return
	a, b = worlds[x], worlds[y]
	name = step['function']
	what = f'merging {x} and {y} ({name})'
	views = {key: world.observe_fully() for key, world in worlds.items()}
	ctx.count('merges')
	ctx.nontrivial = ctx.nontrivial or bool(a.model.nodes and b.model.nodes)
	try:
		model = merge_models(a.model, b.model, 'default' if name == 'plus' else name)
	except Impossible:
		_, error = call(merging(a, b, name))
		ctx.fault('values that cannot be combined')
		check(isinstance(error, TypeError), 'error-lost', f'{what}: values that cannot be combined, but the call gave {error!r}')
		unchanged(worlds, views, f'{what}, which failed')
		return
	if name not in ('plus', 'default') or trace['cut'] % 3 == 0:
		failing_merges(worlds, a, b, name, views, what, ctx)
	if trace['interrupt']:
		interrupted_merges(worlds, a, b, name, views, model, what, trace, ctx)
	graph = must(merging(a, b, name), what)
	check(isinstance(graph, Graph), 'not-a-union', f'{what}: gave {short(graph)}')
	check(all(graph is not world.graph for world in worlds.values()), 'not-independent', f'{what}: gave one of the graphs there were')
	result = Side(graph=graph, model=model, ctx=ctx, materials=a.materials)
	verify_result(worlds, result, what)
	unchanged(worlds, views, what)
	worlds[f'r{len(worlds) - 2}'] = result


def verify_result(worlds, result, what):
	try:
		result.verify(what)
		result.verify_queries(what)
	except Violation as violation:
		raise Violation('not-a-union', violation.message)
	theirs = {}
	for name, world in worlds.items():
		for item in list(world.graph.nodes) + list(world.graph.edges):
			theirs[id(item)] = name
	for item in list(result.graph.nodes) + list(result.graph.edges):
		check(id(item) not in theirs, 'not-independent', f'{what}: {item!r} also belongs to graph {theirs.get(id(item))}')


def failing_merges(worlds, a, b, name, views, what, ctx):
	"""The combining function of the caller fails at each of its calls in turn."""
	plain = FUNCTIONS['default' if name == 'plus' else name]
	rehearsal = Failing(plain)
	must(merging(a, b, 'function', rehearsal), what)
	expected = pairs(a.model, b.model)
	remaining = [text(pair) for pair in expected]
	for pair in rehearsal.calls:
		check(text(pair) in remaining, 'wrong-combination', f'{what}: {pair} was combined, but the values of both were {short(expected)}')
		remaining.remove(text(pair))
	needed = [text(pair) for pair in expected if pair[0] is not None and pair[1] is not None]
	check(not any(pair in remaining for pair in needed), 'wrong-combination', f'{what}: {remaining} were never combined')
	for k in range(1, len(rehearsal.calls) + 1):
		error_type = (CallerError, AttributeError, KeyError, TypeError)[k % 4]
		failing = Failing(plain, k, error_type)
		result, error = call(merging(a, b, 'function', failing))
		ctx.fault('combining function failed')
		where = f'{what}, whose combining function failed at call {k}'
		check(
			type(error) is error_type and 'the combining function of the caller' in str(error), 'error-lost',
			f'{where} with {error_type.__name__}: the call gave {error!r}'
		)
		unchanged(worlds, views, where)


def interrupted_merges(worlds, a, b, name, views, model, what, trace, ctx):
	exception = EXCEPTIONS[trace['exception']]
	STEPPER.fine()
	take = merging(a, b, name)
	_, error = STEPPER.run(take, limit=BUDGET)
	if error is not None:
		raise Violation('unexpected-error', f'{what} raised {type(error).__name__}: {error}')
	steps = STEPPER.count
	targets = trace.get('only')
	if targets is None:
		stride = max(1, steps // 20)
		targets = range(1 + trace['cut'] % stride, steps + 1, stride)
	for k in targets:
		graph, error = STEPPER.run(take, limit=BUDGET, target=k, exception=exception('injected by the simulator'))
		if STEPPER.fired is None:
			continue
		ctx.fault(f'{exception.__name__} in a merge')
		ctx.points.add(STEPPER.fired)
		where = f'{what}, interrupted at step {k} (in {STEPPER.fired[0]} line {STEPPER.fired[1]})'
		try:
			unchanged(worlds, views, where)
			if error is None:
				verify_result(worlds, Side(graph=graph, model=model.clone()), where)
		except Violation:
			ctx.resolved = dict(trace, only=[k])
			raise
	STEPPER.coarse()


def render(world, what, ctx):
	source = must(lambda: world.graph.render(view=False), what).source
	verify_dot(source, world.model, world.arguments, what)
	again = must(lambda: world.graph.render(view=False), what).source
	expect_equal(again, source, 'render-not-repeatable', what)
	world.model.do_render({})
	ctx.count('renders')


def run(trace, ctx):
	Plan.reset()
	materials = Materials()
	worlds = {}
	for side in 'ab':
		given = trace[side + '_arguments']
		world = worlds[side] = Side(given['arguments'], given['overwrite'], ctx=ctx, materials=materials)
		world.arguments = given['arguments']
		for op in trace[side]:
			step(worlds, side, op, ctx)
	for entry in trace['steps']:
		if 'merge' in entry:
			merge(worlds, entry, trace, ctx)
			for world in worlds.values():
				if not hasattr(world, 'arguments'):
					world.arguments = {}
			continue
		side = entry['side']
		if side not in worlds:
			continue
		views = {name: world.observe_fully() for name, world in worlds.items() if name != side}
		op = {key: value for key, value in entry.items() if key != 'side'}
		step(worlds, side, op, ctx)
		unchanged(worlds, views, f'after {op} on graph {side}', 'not-independent')
	for name, world in worlds.items():
		world.verify(f'graph {name} at the end')
		world.verify_queries(f'graph {name} at the end')
		ctx.log(name, text(world.observe_fully()))


def step(worlds, side, op, ctx):
	world = worlds[side]
	what = f'graph {side}, {op}'
	if op['op'] == 'render':
		if len(world.model.edges) <= 11:
			render(world, what, ctx)
		return
	if op['op'] == 'restyle':
		item = world.nodes.get(op['name']) if 'name' in op else world.edges.get(tuple(op['edge']))
		if item is not None and item.has_style():
			must(lambda: item.style.reset_colours(), what)
			item.style.colour = op['to']
			known = world.model.nodes[op['name']] if 'name' in op else world.model.edges[tuple(op['edge'])]
			known.style = {'rendered': True}
			world.verify(what)
		return
	if op['op'] == 'append':
		try:
			world.model.clone().apply(op)
		except Refused:
			return
	world.apply(op)
	world.verify(what)
