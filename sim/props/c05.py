"""C05: copies, filtered copies and restored snapshots are faithful and independent."""
import base64
import copy
import pickle

from .. import gen as g
from ..callbacks import Bomb, CallerError, Plan
from ..child import Helpers
from ..core import Violation, check, expect_equal, short
from ..model import Model, Refused
from ..mon import BUDGET, STEPPER
from ..reach import Reach
from ..sut import Graph
from ..world import World, call, must, observe_fully

ID = 'C05'
LEVEL = 'fault_enumeration'
RUNS = {'quick': 24000, 'thorough': 280000}
LISTS = [('history',), ('methods',), ('views',), ('views', '*', 'nodes'), ('after',), ('methods', '*', 'nodes')]
RULE = (
	'one evaluation = a seeded history of edits, ingested styles and renders; one or two copies of copies (copy, deepcopy, '
	'pickle in every protocol, filter in every direction, restored in a second process with another hash seed); then seeded '
	'edits and renders of both graphs, each compared with its own reference model and with a twin that was built from scratch; '
	'or the taking of the copy interrupted at many steps or failing on a value that cannot be copied; non-trivial = at least '
	'one node was copied; distinct = different traces'
)
TECHNIQUE = 'deterministic simulation: copies and cross-process snapshots at any point of seeded histories, interrupted and failing copies'
REAL = [
	'abstract._BasicGraph', 'abstract._GraphWithoutDisplay', 'abstract.Node', 'abstract.Edge', 'abstract.styling', 'colouration',
	'pickle and copy of the standard library', 'a second Python process'
]
STUB = ['delivery of signals and failed allocations: raised by the simulator at the chosen step', 'values of the caller that cannot be copied']
STATES = 'contents (nodes and edges) of copies and of originals after their separate histories'
EXCEPTIONS = {'keyboard': KeyboardInterrupt, 'memory': MemoryError}
HASH_SEEDS = (1, 77)
SETTINGS = (
	('label', ('another title', None)), ('direction', ('TB', 'RL')), ('tooltip', ('tip of the graph',)), ('strict', (True, False)),
	('global_node_style', ({'shape': 'hexagon'},)), ('global_edge_style', ({'line_width': 5},)), ('label_url', ('https://example.org/x',)),
	('ordering', (True, False))
)


def start_helpers(config):
	return Helpers(HASH_SEEDS)


def gen_history(rng, config, length, model):
	ops = []
	for _ in range(length):
		if rng.random() < 0.06 and model.nodes and len(model.edges) <= 9:
			op = {'op': 'render'}
		else:
			op = g.next_op(rng, config, model)
		ops.append(op)
		try:
			model.apply(op)
		except Refused:
			pass
	return ops


def gen_method(rng, model):
	kind = rng.choice(('copy', 'copy', 'deepcopy', 'pickle', 'pickle', 'filter', 'filter', 'filter', 'process'))
	method = {'kind': kind}
	if kind in ('pickle', 'process'):
		method['protocol'] = rng.choice((0, 1, 2, 3, 4, 5))
	if kind == 'process':
		method['helper'] = rng.randrange(len(HASH_SEEDS))
	if kind == 'filter':
		return gen_filter(rng, model)
	return method


def gen_filter(rng, model):
	names = list(model.nodes)
	return {
		'kind': 'filter', 'nodes': rng.sample(names, min(len(names), rng.choice((0, 1, 1, 1, 2, 2, 2, 3)))),
		'direction': rng.choice(('to', 'from', 'to_and_from', None)), 'type': rng.choice(('include', 'exclude', None)),
		'by': rng.choice(('name', 'object'))
	}


def gen(rng, index, tier):
	if index % 97 == 5:
		n = rng.choice((60, 150, 300))
		return {
			'mode': 'large', 'n': n, 'history': [], 'methods': [rng.choice((
				{'kind': 'copy'}, {'kind': 'pickle', 'protocol': rng.choice((0, 2, 5))}, {'kind': 'deepcopy'}
			))], 'after': []
		}
	config = g.configuration(rng, max_nodes=7)
	if rng.random() < 0.08:
		config['names'] = g.MANY[:rng.randint(9, 16)]
		config['weights']['add'] = 16
	config['mutable'] = rng.random() < 0.5
	model = Model(config['overwrite'])
	trace = {
		'mode': 'fault' if index % 5 == 0 else 'history', 'overwrite': config['overwrite'],
		'arguments': g.arguments(rng), 'history': [], 'methods': [], 'after': []
	}
	if rng.random() < 0.25:
		extra = {'nodes': [], 'edges': [], 'node_styles': {
			str(rng.choice(config['names'])): {'text_size': 17} for _ in range(rng.randint(1, 2))
		}}
		if config['overwrite'] and rng.random() < 0.5:
			extra['node_colours'] = {str(rng.choice(config['names'])): rng.choice(g.COLOURS)}
		trace['append'] = extra
	trace['history'] = gen_history(rng, config, rng.choice((3, 7, 12, 20)), model)
	if trace['mode'] == 'fault':
		method = gen_method(rng, model)
		if method['kind'] == 'process':
			method = {'kind': 'pickle', 'protocol': method['protocol']}
		trace['methods'] = [method]
		trace['fault'] = rng.choice(('interrupt', 'interrupt', 'interrupt', 'value'))
		trace['exception'] = rng.choice(sorted(EXCEPTIONS))
		trace['cut'] = rng.randint(0, 999)
		return trace
	trace['views'] = [gen_filter(rng, model) for _ in range(rng.choice((0, 0, 3, 6)))]
	reduced = model.clone()
	for _ in range(rng.choice((1, 1, 2))):
		method = gen_method(rng, reduced)
		trace['methods'].append(method)
		reduced = filtered(reduced, method)
		if method['kind'] == 'process':
			break
	sides = {'original': model, 'copy': reduced}
	for _ in range(rng.choice((2, 5, 8))):
		side = rng.choice(('original', 'copy'))
		op = None
		if rng.random() < 0.1 and len(sides[side].edges) <= 9:
			op = {'op': 'render'}
		elif rng.random() < 0.3:
			op = g.touch(rng, sides[side])
		elif rng.random() < 0.15:
			op = g.append(rng, config, sides[side])
			if rng.random() < 0.5:
				key, values = rng.choice(SETTINGS)
				op['settings'] = {key: rng.choice(values)}
		op = op or g.next_op(rng, config, sides[side])
		if op['op'] == 'stale':
			continue
		trace['after'].append(dict(op, side=side))
		try:
			sides[side].apply(op)
		except Refused:
			if op['op'] == 'append':
				trace['after'].pop()
	return trace


def applicable(model, op):
	try:
		model.clone().apply(op)
	except Refused:
		return False
	return True


def doomed(model, method):
	"""The nodes that a filter leaves out."""
	reach = Reach(model.nodes, model.edges)
	chosen = set()
	direction = method.get('direction') or 'to_and_from'
	for name in method['nodes']:
		if name in model.nodes:
			chosen.add(name)
			if direction in ('to', 'to_and_from'):
				chosen.update(reach.ancestors[name])
			if direction in ('from', 'to_and_from'):
				chosen.update(reach.descendants[name])
	include = (method.get('type') or 'include') == 'include'
	return [name for name in model.nodes if (name not in chosen) == include]


def filtered(model, method):
	result = model.clone()
	if method['kind'] == 'filter':
		for name in doomed(model, method):
			result.do_remove({'name': name})
	return result


def append_styles(world, trace):
	extra = trace.get('append')
	if extra is not None:
		must(lambda: world.graph.append(copy.deepcopy(extra)), 'append')


def build(trace, ctx=None):
	world = World(trace['arguments'], trace['overwrite'], ctx=ctx)
	append_styles(world, trace)
	for op in trace['history']:
		world.apply(op)
	return world


def taking(world, method):
	"""A function that takes the copy."""
	graph = world.graph
	kind = method['kind']
	if kind == 'copy':
		return graph.copy
	if kind == 'deepcopy':
		return lambda: copy.deepcopy(graph)
	if kind == 'pickle':
		return lambda: pickle.loads(pickle.dumps(graph, method['protocol']))
	nodes = [name for name in method['nodes'] if name in world.model.nodes]
	if method['by'] == 'object':
		nodes = [world.nodes[name] for name in nodes]
	arguments = {'nodes': nodes}
	if method.get('direction') is not None:
		arguments['direction'] = method['direction']
	if method.get('type') is not None:
		arguments['filter_type'] = method['type']
	return lambda: graph.filter(**arguments)


def run(trace, ctx):
	Plan.reset()
	if trace['mode'] == 'large':
		run_large(trace, ctx)
	elif trace['mode'] == 'fault':
		run_fault(trace, ctx)
	else:
		run_history(trace, ctx)


def faithful(original, duplicate, before, method, what):
	"""The copy equals the original (or its reduction), is made of its own objects, and is complete."""
	graph = duplicate.graph
	check(graph is not original.graph and isinstance(graph, Graph), 'copy-differs', f'{what}: not another graph')
	check(type(graph) is type(original.graph), 'copy-differs', f'{what}: another type')
	if method['kind'] != 'filter':
		expect_equal(duplicate.observe_fully(), before, 'copy-differs', what)
	duplicate.verify(what)
	duplicate.verify_queries(what)
	theirs = {id(item) for item in list(original.graph.nodes) + list(original.graph.edges)}
	theirs.update(id(item.style) for item in list(original.graph.nodes) + list(original.graph.edges) if item.has_style())
	for item in list(graph.nodes) + list(graph.edges):
		check(id(item) not in theirs, 'copy-shares', f'{what}: {item!r} belongs to both graphs')
		check(not item.has_style() or id(item.style) not in theirs, 'copy-shares', f'{what}: the style of {item!r} belongs to both graphs')
	expect_equal(original.observe_fully(), before, 'copying-changed-original', what)
	if method['kind'] != 'filter':
		for a, b in ((original, duplicate), (duplicate, original)):
			check(bool(must(lambda: a.graph.is_similar_to(b.graph), what)), 'not-similar', f'{what}: not similar')


def values(model):
	return (
		{name: item.value for name, item in model.nodes.items()}, {key: item.value for key, item in model.edges.items()}
	)


def run_history(trace, ctx):
	original = build(trace, ctx)
	ctx.nontrivial = len(original.model.nodes) > 0
	source, twin = original, build(trace)
	chain = [original]
	if trace.get('views'):
		before = original.observe_fully()
		for method in trace['views']:
			ctx.count('filter only looked at')
			World(graph=must(taking(original, method), f'{method}'), model=filtered(original.model, method)).verify(f'{method}')
		expect_equal(original.observe_fully(), before, 'copying-changed-original', 'filters')
	restored = None
	for method in trace['methods']:
		what = f'{method}'
		before = source.observe_fully()
		ctx.count('copy by ' + method['kind'])
		if method['kind'] == 'process':
			restored = restore_elsewhere(trace, source, method, ctx)
			expect_equal(source.observe_fully(), before, 'copying-changed-original', what)
			expect_equal(restored['restored'], repr(before), 'copy-differs', f'{what}: the restored graph')
			break
		graph = must(taking(source, method), what)
		removed = doomed(source.model, method) if method['kind'] == 'filter' else []
		model = filtered(source.model, method)
		for name in removed:
			twin.apply({'op': 'remove', 'name': name})
		duplicate = World(graph=graph, model=model, ctx=ctx)
		faithful(source, duplicate, before, method, what)
		expect_equal(duplicate.observe_fully(), twin.observe_fully(), 'copy-differs', f'{what}, against a graph built from scratch')
		chain.append(duplicate)
		source = duplicate
	base = build(trace)
	bystanders = [(world, world.observe_fully()) for world in chain[1:-1]]
	duplicate = chain[-1] if len(chain) > 1 else None
	for op in trace['after']:
		side = op['side']
		op = {key: value for key, value in op.items() if key != 'side'}
		if op['op'] == 'append' and not applicable((twin if side == 'copy' else base).model, op):
			continue
		if side == 'copy':
			twin.apply(op)
		else:
			base.apply(op)
		if side == 'copy' and (restored is not None or duplicate is None):
			continue
		touched, other = (duplicate, original) if side == 'copy' else (original, duplicate)
		untouched = other.observe_fully() if other is not None else None
		touched.apply(op)
		if other is not None:
			expect_equal(other.observe_fully(), untouched, 'not-independent', f'the other graph after {side}: {op}')
			other.verify(f'the other graph after {side}: {op}')
			if values(touched.model) != values(other.model):
				for a, b in ((touched, other), (other, touched)):
					check(not must(lambda: a.graph.is_similar_to(b.graph), 'is_similar_to'), 'similar', f'similar although different, after {op}')
		touched.verify(f'after {side}: {op}')
	original.verify_queries('the original at the end')
	if duplicate is not None and restored is None:
		duplicate.verify_queries('the copy at the end')
	small = all(len(world.model.edges) <= 10 for world in (twin, base))
	for world, reference, name in ((original, base, 'original'), (duplicate, twin, 'copy')):
		if world is None or (name == 'copy' and restored is not None):
			continue
		expect_equal(world.observe_fully(), reference.observe_fully(), 'later-difference', f'the {name} at the end, against its twin')
		if small:
			same_render(world, reference, name)
	if restored is not None:
		final = repr(twin.observe_fully())
		expect_equal(restored['final'], final, 'later-difference', 'the restored graph after its edits, against its twin')
		if small:
			expect_equal(restored['dot'], str(must(lambda: twin.graph.render(view=False), 'render')), 'render-differs', 'the restored graph')
	for world, view in bystanders:
		expect_equal(world.observe_fully(), view, 'not-independent', 'an intermediate copy')
	ctx.log('end', repr(original.observe_fully()))


def same_render(world, reference, name):
	text = str(must(lambda: world.graph.render(view=False), f'render of the {name}'))
	expected = str(must(lambda: reference.graph.render(view=False), 'render of the twin'))
	expect_equal(text, expected, 'render-differs', f'DOT text of the {name}, against its twin')


def restore_elsewhere(trace, source, method, ctx):
	data = must(lambda: pickle.dumps(source.graph, method['protocol']), 'pickle')
	ctx.count('restored in another process')
	reductions = [m for m in trace['methods'] if m['kind'] == 'filter']
	return ctx.helpers[method['helper'] % len(ctx.helpers)].request({
		'property': ID, 'data': base64.b64encode(data).decode(), 'overwrite': trace['overwrite'],
		'history': trace['history'], 'reductions': reductions,
		'after': [op for op in trace['after'] if op['side'] == 'copy']
	})


def in_child(request):
	"""The second process: only the bytes of the snapshot reach it."""
	Plan.reset()
	model = Model(request['overwrite'])
	for op in request['history']:
		try:
			model.apply(op)
		except Refused:
			pass
	for method in request['reductions']:
		model = filtered(model, method)
	graph = must(lambda: pickle.loads(base64.b64decode(request['data'])), 'unpickling')
	world = World(graph=graph, model=model)
	world.verify('restored')
	world.verify_queries('restored')
	result = {'restored': repr(world.observe_fully())}
	for op in request['after']:
		if op['op'] == 'append' and not applicable(world.model, op):
			continue
		world.apply({key: value for key, value in op.items() if key != 'side'})
	world.verify('restored, after edits')
	result['final'] = repr(world.observe_fully())
	if len(world.model.edges) <= 10:
		result['dot'] = str(must(lambda: graph.render(view=False), 'render of the restored graph'))
	return result


def run_fault(trace, ctx):
	world = build(trace, ctx)
	if not trace['methods']:
		return
	method = trace['methods'][0]
	before = world.observe_fully()
	what = f'{method}'
	if trace['fault'] == 'value':
		targets = list(world.nodes.values()) + list(world.edges.values())
		targets = [item for item in targets if not item.is_frozen]
		if not targets:
			return
		item = targets[trace['cut'] % len(targets)]
		value = item.value
		item.value = Bomb()
		unable = observe_fully(world.graph)
		_, error = call(taking(world, method))
		ctx.fault('value that cannot be copied')
		ctx.nontrivial = True
		check(isinstance(error, CallerError), 'error-lost', f'{what} with a value that cannot be copied: {error!r}')
		expect_equal(world.observe_fully(), unable, 'copying-changed-original', f'{what}, failed')
		item.value = value
	else:
		exception = EXCEPTIONS[trace['exception']]
		STEPPER.fine()
		take = taking(world, method)
		_, error = STEPPER.run(take, limit=BUDGET)
		if error is not None:
			raise Violation('unexpected-error', f'{what} raised {type(error).__name__}: {error}')
		steps = STEPPER.count
		targets = trace.get('only')
		if targets is None:
			stride = max(1, steps // 25)
			targets = range(1 + trace['cut'] % stride, steps + 1, stride)
		for k in targets:
			result, error = STEPPER.run(take, limit=BUDGET, target=k, exception=exception('injected by the simulator'))
			if STEPPER.fired is None:
				continue
			ctx.fault(f'{exception.__name__} in a copy')
			ctx.points.add(STEPPER.fired)
			ctx.nontrivial = True
			where = f'{what} interrupted at step {k} (in {STEPPER.fired[0]} line {STEPPER.fired[1]})'
			try:
				expect_equal(world.observe_fully(), before, 'copying-changed-original', where)
				if error is None:
					duplicate = World(graph=result, model=filtered(world.model, method))
					faithful(world, duplicate, before, method, where)
			except Violation:
				ctx.resolved = dict(trace, only=[k])
				raise
	world.verify_queries(f'{what}, after failures')
	duplicate = World(graph=must(taking(world, method), f'{what} after failures'), model=filtered(world.model, method))
	faithful(world, duplicate, before, method, f'{what} after failures')
	if len(world.model.edges) <= 10:
		same_render(world, build(trace), 'original after failed copies')


def run_large(trace, ctx):
	graph = Graph()
	n = trace['n']
	for i in range(n):
		graph.add_node(name=f'n{i}', value=i)
	for i in range(n - 1):
		graph.connect(start=f'n{i}', end=f'n{i + 1}', value=i)
	world = World(graph=graph, model=Model())
	what = f'{trace["methods"][0]} of a chain of {n} nodes'
	duplicate = must(taking(world, trace['methods'][0]), what)
	expect_equal([node.name for node in duplicate.nodes], [node.name for node in graph.nodes], 'copy-differs', what)
	expect_equal(list(duplicate.edges_dict), list(graph.edges_dict), 'copy-differs', what)
	check(duplicate.get_graphviz_str() == graph.get_graphviz_str(), 'copy-differs', f'{what}: DOT text')
	check(duplicate.is_similar_to(graph), 'not-similar', what)
	ctx.count('copy of a long chain')
	ctx.nontrivial = True
	ctx.log('large', n)
