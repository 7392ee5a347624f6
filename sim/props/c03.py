"""C03: an interrupted edit is never left half made."""
import copy
import warnings

from .. import gen as g
from ..core import Violation, check, expect_equal, short
from ..model import Model, Refused
from ..mon import BUDGET, STEPPER
from ..world import World, compare_view, expected_view, must, observe

ID = 'C03'
LEVEL = 'fault_enumeration'
STEPPING = 'fine'
RUNS = {'quick': 5400, 'thorough': 60000}
LISTS = [('history',), ('edits',), ('edits', '*', 'cuts')]
RULE = (
	'sweep: one evaluation = one seeded history followed by one edit that is interrupted at every step inside the library in '
	'turn (each time on a rebuilt graph), checked, repeated and checked again; storm: one evaluation = a history whose edits '
	'are each interrupted up to three times at seeded steps before they are let through; non-trivial = at least one '
	'interrupt fired inside an edit; distinct = different traces'
)
TECHNIQUE = 'deterministic simulation: interrupt injected at every executed step of every edit, then retry; reference model'
REAL = ['abstract._BasicGraph', 'abstract._GraphWithoutDisplay', 'abstract.Node', 'abstract.Edge', 'abstract._GraphObj', 'colouration']
STUB = ['delivery of signals and failed allocations: raised by the simulator at the chosen step']
ASSUMPTIONS = [
	'an interrupt is delivered at a line, a function entry or exit, or a jump in the code of the library',
	'a second interrupt does not hit the handler of the first'
]
EXCEPTIONS = {'keyboard': KeyboardInterrupt, 'memory': MemoryError, 'timeout': TimeoutError}


def one_edit(rng, config, model):
	for _ in range(20):
		kind = rng.choice((
			'add', 'add', 'connect', 'connect', 'connect', 'disconnect', 'disconnect', 'remove', 'remove', 'clear', 'set'
		))
		op = g.valid(rng, config, model, kind)
		if op is None:
			continue
		if 'policy' in op.get('attrs', {}):
			op['attrs']['policy'] = 'ignore'
		try:
			model.clone().apply(op)
		except Refused:
			continue
		return op
	return {'op': 'add', 'name': config['names'][0], 'attrs': {'policy': 'ignore'}}


def gen(rng, index, tier):
	config = g.configuration(rng, max_nodes=6)
	config['refuse'] = 0.0
	config['loops'] = max(config['loops'], 0.1)
	ops, model = g.history(rng, config, rng.choice((2, 5, 9, 14)))
	model.apply_all = None
	exceptions = [rng.choice(sorted(EXCEPTIONS))]
	if index % 4:
		return {
			'mode': 'sweep', 'overwrite': config['overwrite'], 'history': ops, 'edits': [one_edit(rng, config, model)],
			'exceptions': exceptions, 'offset': rng.randint(0, 3)
		}
	edits = []
	for _ in range(rng.randint(2, 8)):
		op = one_edit(rng, config, model)
		op['cuts'] = [rng.randint(0, 999) for _ in range(rng.choice((0, 1, 1, 2, 3)))]
		edits.append(op)
		try:
			model.apply(op)
		except Refused:
			pass
	return {'mode': 'storm', 'overwrite': config['overwrite'], 'history': ops, 'edits': edits, 'exceptions': exceptions}


def build(trace):
	world = World(overwrite=trace['overwrite'])
	with warnings.catch_warnings():
		warnings.simplefilter('ignore')
		for op in trace['history']:
			world.apply(op)
	return world


def run(trace, ctx):
	if trace['mode'] == 'sweep':
		for edit in trace['edits']:
			sweep(trace, edit, ctx)
	else:
		storm(trace, ctx)


def predicted(world, op):
	after = world.model.clone()
	try:
		after.apply(op)
	except Refused:
		return None
	return after


def sweep(trace, op, ctx):
	op = {key: value for key, value in op.items() if key != 'cuts'}
	exception = EXCEPTIONS[trace['exceptions'][0]]
	world = build(trace)
	after = predicted(world, op)
	if after is None:
		return
	_, error = STEPPER.run(lambda: world.perform(op), limit=BUDGET)
	if error is not None:
		raise Violation('refused-valid-edit', f'{op} raised {type(error).__name__}: {error}')
	steps = STEPPER.count
	ctx.log('steps', steps)
	stride = max(1, steps // 220)
	first = (trace.get('only') or [None])[0]
	targets = [first] if first is not None else range(1 + trace.get('offset', 0) % stride, steps + 1, stride)
	for k in targets:
		world = build(trace)
		try:
			interrupt(world, op, after, k, exception, ctx)
			finish(world, op, after, f'{op} interrupted at step {k}, then repeated')
		except Violation:
			ctx.resolved = dict(trace, edits=[op], only=[k])
			raise
	ctx.state(sorted(map(repr, after.edges)))


def storm(trace, ctx):
	world = build(trace)
	exception = EXCEPTIONS[trace['exceptions'][0]]
	for op in trace['edits']:
		cuts = op.get('cuts', [])
		op = {key: value for key, value in op.items() if key != 'cuts'}
		after = predicted(world, op)
		if after is None:
			continue
		estimate = 20
		for cut in cuts:
			if not needed(world, op):
				break
			attempt = again(world, op)
			interrupt(world, attempt, after, 1 + cut * estimate // 1000, exception, ctx)
			estimate = max(estimate, STEPPER.count, 60)
		finish(world, op, after, f'{op} interrupted {len(cuts)} times, then repeated')
	with_queries = f'at the end of {len(trace["edits"])} interrupted edits'
	world.verify_queries(with_queries)
	ctx.state(sorted(map(repr, world.model.edges)))


def interrupt(world, op, after, k, exception, ctx):
	"""One attempt at op that is cut short at its k-th step."""
	before = world.model
	_, error = STEPPER.run(
		lambda: world.perform(op), limit=BUDGET, target=k, exception=exception('injected by the simulator')
	)
	fired = STEPPER.fired
	what = f'{op} interrupted at step {k}'
	if fired is None:
		if error is not None:
			raise Violation('refused-valid-edit', f'{what} (not reached) raised {type(error).__name__}: {error}')
		return
	ctx.fault(f'{exception.__name__} in {op["op"]}')
	ctx.points.add(fired)
	ctx.nontrivial = True
	what += f' (in {fired[0]} line {fired[1]})'
	if error is not None and not isinstance(error, exception):
		raise Violation('error-lost', f'{what}: raised {type(error).__name__}: {error} instead')
	sound(world, op, before, after, what, finished=error is None)


def sound(world, op, before, after, what, finished=False):
	graph = world.graph
	got = must(lambda: observe(graph), f'{what}: observing the graph')
	kind = 'half-made-edit'
	old, new = expected_view(before), expected_view(after)
	if finished:
		compare_view(got, after, kind, what)
	check(list(got['nodes']) in (list(old['nodes']), list(new['nodes'])), kind, lambda: f'{what}: nodes {list(got["nodes"])}')
	for side in ('nodes', 'edges'):
		for name, item in got[side].items():
			check(name in old[side] or name in new[side], kind, f'{what}: {name} appeared')
			candidates = [view[side][name] for view in (old, new) if name in view[side]]
			for field, value in item.items():
				check(
					any(candidate[field] == value for candidate in candidates), kind,
					f'{what}: {field} of {name} is {short(value, 100)}'
				)
		for name in old[side]:
			if name in new[side]:
				check(name in got[side], kind, f'{what}: {name} is lost')
	for direction, end in (('outward', 0), ('inward', 1)):
		for name, keys in got[direction].items():
			check(len(set(keys)) == len(keys), kind, f'{what}: {direction} edges of {name}: {keys}')
			for key in keys:
				check(key[end] == name and key in got['edges'], kind, f'{what}: {name} has the {direction} edge {key}')
			kept = [key for key in keys if key in old['edges'] and key in new['edges']]
			expected = [key for key in old[direction].get(name, []) if key in new['edges']]
			check(kept == expected, kind, f'{what}: order of the {direction} edges of {name}: {keys}')
	for key in got['edges']:
		check(
			key in got['outward'].get(key[0], []) and key in got['inward'].get(key[1], []), kind,
			f'{what}: edge {key} is attached to one of its nodes only'
		)

	def usable():
		for node in graph.nodes:
			check(node.graph is graph, kind, f'{what}: {node.name} does not belong to the graph')
			expect_equal(
				[child.name for child in node.children], [key[1] for key in got['outward'][node.name]], kind,
				f'{what}: children of {node.name}'
			)
			expect_equal(
				[parent.name for parent in node.parents], [key[0] for key in got['inward'][node.name]], kind,
				f'{what}: parents of {node.name}'
			)
			node.get_graphviz_str()
			for edge in node.edges:
				check(edge.graph is graph, kind, f'{what}: {edge.id} does not belong to the graph')
				check(
					graph.get_node(edge.start.name) is edge.start and graph.get_node(edge.end.name) is edge.end, kind,
					f'{what}: {edge.id} has foreign ends'
				)
				edge.get_graphviz_str()
		graph.get_graphviz_str()
		graph.get_tree_str()

	must(usable, f'{what}: using the graph')


def needed(world, op):
	"""Did the edit not take effect yet?"""
	if op['op'] == 'remove':
		return op['name'] in world.graph
	if op['op'] == 'disconnect':
		return tuple(op['edge']) in world.graph.edges_dict
	return True


def again(world, op):
	"""The edit as a careful caller repeats it: it does not style again what it has styled."""
	op = copy.deepcopy(op)
	if world.model.overwrite:
		return op
	if op['op'] == 'add' and op['attrs'].get('style') is not None and op['name'] in world.graph:
		if world.graph.get_node(op['name']).has_style():
			del op['attrs']['style']
	if op['op'] == 'connect' and op['attrs'].get('style') is not None:
		edge = world.graph.edges_dict.get((op['start'], op['end'], op['id']))
		if edge is not None and edge.has_style():
			del op['attrs']['style']
	if op['op'] == 'set' and op['field'] == 'style':
		item = world.nodes.get(op['name']) if 'name' in op else world.edges.get(tuple(op['edge']))
		if item.has_style():
			return {**op, 'field': 'label', 'to': item.raw_label}
	return op


def finish(world, op, after, what):
	"""Repeats the edit, uninterrupted."""
	if must(lambda: needed(world, op), what):
		attempt = again(world, op)
		if attempt['op'] in ('add', 'connect'):
			attempt['attrs']['policy'] = 'ignore'
		result, error = STEPPER.run(lambda: world.perform(attempt), limit=BUDGET)
		if error is not None:
			raise Violation('repeat-failed', f'{what}: {type(error).__name__}: {short(str(error), 300)}')
		if op['op'] == 'add':
			check(result is world.graph.get_node(op['name']), 'wrong-object', f'{what}: returned another node')
		if op['op'] == 'connect':
			check(
				result is world.graph.edges_dict.get((op['start'], op['end'], op['id'])), 'wrong-object',
				f'{what}: returned another edge'
			)
	world.model = after
	world.adopt()
	got = must(lambda: observe(world.graph), f'{what}: observing the graph')
	compare_view(got, after, 'repeat-differs', what)
