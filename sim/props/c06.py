"""C06: every render shows the whole current graph and is repeatable."""
import os

from .. import gen as g
from ..callbacks import CallerError, Plan
from ..core import Violation, check, expect_equal, short
from ..disk import Disk, Layout, empty
from ..dot import verify as verify_dot, without_styles
from ..model import Model, Refused
from ..mon import BUDGET, STEPPER
from ..world import World, call, must

ID = 'C06'
LEVEL = 'fault_enumeration'
RUNS = {'quick': 4000, 'thorough': 50000}
LISTS = [('history',), ('cuts',)]
RULE = (
	'one evaluation = a seeded history of edits, ingested style tables and renders, where some renders fail (label converter at '
	'its k-th call, DOT file, layout program) and are repeated at once or after more edits; or the last render of such a history '
	'interrupted at many steps, each time on a rebuilt graph, and repeated; every DOT text is parsed and compared with the '
	'reference model, with the text of a second render, and with the text of a twin that met no failure; non-trivial = at least '
	'one node was rendered; distinct = different traces'
)
TECHNIQUE = 'deterministic simulation: renders failing in callbacks, files, layout program or by interrupt at any step; DOT text against a reference model and an undisturbed twin'
REAL = [
	'abstract.Graph', 'abstract._GraphWithoutDisplay', 'abstract._BasicGraph', 'abstract.Node', 'abstract.Edge', 'abstract.styling',
	'colouration', 'graphviz (Python package)'
]
STUB = ['layout program and viewer (simulated processes)', 'failing file writes', 'label converters of the caller', 'delivery of interrupts']
EXCEPTIONS = {'keyboard': KeyboardInterrupt, 'memory': MemoryError}
IO_FAULTS = (
	{'layout': [{'kind': 'missing'}]}, {'layout': [{'kind': 'exit', 'share': 0}]}, {'layout': [{'kind': 'exit', 'share': 50}]},
	{'layout': [{'kind': 'signal', 'share': 30}]}, {'layout': [{'kind': 'descriptors'}]},
	{'open': [{'kind': 'open', 'errno': 'EACCES'}]}, {'open': [{'kind': 'open', 'errno': 'ENOSPC'}]},
	{'open': [{'kind': 'full', 'after': 40}]}, {'open': [{'kind': 'close'}]}, {'layout': [{'kind': 'pipe', 'after': 30}]}
)
ERRORS = {e.__name__: e for e in (CallerError, TypeError, AttributeError, KeyError, ValueError, RuntimeError)}
# five times what the densest graphs need; following every path takes more than that, and soon for ever
DENSE = 50_000_000
OPTIONS = (
	{}, {}, {'direction': 'TB'}, {'direction': 'RL', 'pad': 0.5}, {'height': 3, 'width': 4}, {'height': 5}, {'width': 6, 'dpi': 100}
)


def has_style(op):
	return (
		op.get('attrs', {}).get('style') is not None or op.get('field') == 'style'
		or (op['op'] == 'append' and any(entry[-1].get('style') for entry in op['nodes'] + op['edges']))
	)


def gen_dense(rng):
	"""A graph with few nodes and very many paths, and a few more edits and renders."""
	if rng.random() < 0.6:
		layers, width = rng.choice(((13, 2), (14, 2), (9, 3)))
		names = [[f'{letter}{layer}' for letter in 'abc'[:width]] for layer in range(layers)]
		pairs = [(a, b) for layer in range(layers - 1) for a in names[layer] for b in names[layer + 1]]
		names = sum(names, [])
	else:
		names = [f'n{i}' for i in range(15)]
		pairs = [(a, b) for i, a in enumerate(names) for b in names[i + 1:]]
	leave = rng.choice((0, 0, 0.03))
	pairs = [pair for pair in pairs if rng.random() >= leave]
	if rng.random() < 0.3:
		rng.shuffle(pairs)
	if rng.random() < 0.2:
		rng.shuffle(names)
	ops = [{'op': 'add', 'name': name, 'attrs': {}} for name in names]
	ops += [{'op': 'connect', 'start': a, 'end': b, 'id': None, 'by': 'name', 'attrs': {}} for a, b in pairs]
	for _ in range(rng.choice((0, 1, 2))):
		ops.insert(rng.randint(len(names), len(ops)), {'op': 'add', 'name': rng.choice(names), 'attrs': {'policy': 'ignore', 'style': {'colour': 'red'}}})
	return {'mode': 'dense', 'overwrite': True, 'arguments': {}, 'history': ops}


def gen(rng, index, tier):
	if index % 200 == 7:
		return gen_dense(rng)
	config = g.configuration(rng, max_nodes=rng.choice((3, 5, 7)))
	config['refuse'] = min(config['refuse'], 0.1)
	if rng.random() < 0.08:
		config['names'] = g.MANY[:rng.randint(9, 16)]
		config['weights']['add'] = 16
	model = Model(config['overwrite'])
	trace = {
		'mode': 'interrupt' if index % 4 == 0 else 'history', 'overwrite': config['overwrite'], 'arguments': g.arguments(rng),
		'history': []
	}
	if rng.random() < 0.3:
		trace['arguments']['node_label_converter'] = rng.choice(('upper', 'bracket', 'length'))
	if rng.random() < 0.2:
		trace['arguments']['edge_label_converter'] = rng.choice(('upper', 'bracket'))
	dirty = False
	for _ in range(rng.choice((4, 8, 14, 20))):
		kind = rng.random()
		if kind < 0.12:
			op = {'op': 'render'}
			if rng.random() < 0.5:
				op['options'] = rng.choice(OPTIONS)
			dirty = False
		elif kind < 0.26 and trace['mode'] == 'history':
			op = {'op': 'failing', 'how': rng.choice(('converter', 'converter', 'save', 'svg')), 'at': rng.randint(1, 9)}
			if op['how'] == 'converter':
				op['error'] = rng.choice(sorted(ERRORS))
			if op['how'] != 'converter':
				op['faults'] = rng.choice(IO_FAULTS)
			if rng.random() < 0.4:
				op['options'] = rng.choice(OPTIONS)
			trace['history'].append(op)
			dirty = True
			if rng.random() < 0.6:
				trace['history'].append({'op': 'render'})
				dirty = False
			continue
		elif kind < 0.36:
			op = g.append(rng, config, model)
		else:
			op = g.next_op(rng, config, model)
		if (dirty and has_style(op)) or (op['op'] == 'connect' and len(model.edges) >= 11):
			continue
		try:
			model.apply(op)
		except Refused as refusal:
			if op['op'] == 'append':
				continue
		trace['history'].append(op)
	if trace['mode'] == 'interrupt':
		trace['exception'] = rng.choice(sorted(EXCEPTIONS))
		trace['cut'] = rng.randint(0, 999)
		if rng.random() < 0.4:
			trace['options'] = rng.choice(OPTIONS)
	elif not dirty:
		trace['history'].append({'op': 'render'})
	return trace


def text_of(result, what):
	source = getattr(result, 'source', None)
	check(isinstance(source, str), 'render-incomplete', f'{what}: no DOT source but {short(result, 100)}')
	return source.strip()


def fresh(trace, ctx=None):
	world = World(trace['arguments'], trace['overwrite'], ctx=ctx)
	world.exact = True
	return world


def render(world, options, what):
	return text_of(must(lambda: world.graph.render(view=False, **options), what), what)


def rendered(world, twin, trace, options, what):
	"""A render that nothing disturbs.  The twin meets no failure, and no options of a single render."""
	text = render(world, options, what)
	found = verify_dot(text, world.model, trace['arguments'], what)
	direction = options.get('direction') or trace['arguments'].get('direction') or 'LR'
	expect_equal(found['graph'].get('rankdir', 'TB'), direction, 'render-incomplete', f'{what}: direction')
	again = render(world, options, f'{what}, again')
	expect_equal(again, text, 'render-not-repeatable', f'{what}, again')
	if options:
		# options of one render do not stick
		text = render(world, {}, f'{what}, then without options')
		expect_equal(render(world, options, f'{what}, with options again'), again, 'render-not-repeatable', f'{what}, with options again')
	if twin is not None:
		expected = render(twin, {}, f'{what}, by the twin')
		if twin.exact:
			expect_equal(text, expected, 'render-depends-on-failure', f'{what}, against a twin that met no failure')
		else:
			expect_equal(
				without_styles(text), without_styles(expected), 'render-depends-on-failure', f'{what}, against a twin that met no failure'
			)
	world.model.do_render({})
	if twin is not None:
		twin.model.do_render({})
	world.verify(what)
	check(
		all(item.has_style() for item in list(world.graph.nodes) + list(world.graph.edges)), 'not-styled', f'{what}: something has no style'
	)
	return text


def failing(world, trace, op, ctx, what):
	"""A render that fails (if the fault is reached).  Returns True if it failed."""
	graph, options = world.graph, op.get('options') or {}
	if op['how'] == 'svg':
		options = {key: value for key, value in options.items() if key in ('direction', 'pad')}
	Plan.reset()
	if op['how'] == 'converter':
		error_type = ERRORS[op.get('error', 'CallerError')]
		Plan.reset(fail_at=op['at'], error=error_type)
		result, error = call(lambda: graph.render(view=False, **options))
		fired = Plan.fired
		Plan.reset()
		if not fired:
			if error is not None:
				raise Violation('unexpected-error', f'{what} raised {type(error).__name__}: {error}')
			return False
		ctx.fault('label converter failed')
		check(isinstance(error, error_type), 'error-lost', f'{what}: the label converter failed, but the call gave {short(error or result, 200)}')
		return True
	empty(ctx.scratch)
	with Disk(ctx.scratch, ctx) as disk:
		disk.plan(op['faults'])
		if op['how'] == 'svg':
			result, error = call(lambda: graph.get_svg(**options))
		else:
			result, error = call(lambda: graph.render(path='picture.png', view=False, **options))
		hits = list(disk.hits)
		disk.verify_contained(what)
	if not hits:
		if error is not None:
			raise Violation('unexpected-error', f'{what} raised {type(error).__name__}: {error}')
		if op['how'] == 'svg':
			source = Layout.source(result, 'svg')
			check(source is not None, 'render-incomplete', f'{what}: no complete SVG')
			verify_dot(source, world.model, trace['arguments'], what)
		return False
	check(error is not None, 'error-lost', f'{what}: {hits[0]}, but the call returned')
	return True


def step(world, twin, trace, op, ctx, what):
	if op['op'] == 'render':
		rendered(world, twin, trace, op.get('options') or {}, what)
		world.dirty = False
		ctx.count('renders')
		ctx.nontrivial = ctx.nontrivial or len(world.model.nodes) > 0
		return
	if op['op'] == 'failing':
		failed = failing(world, trace, op, ctx, what)
		if twin is not None:
			must(lambda: twin.graph.render(view=False), f'{what}, by the twin')
			twin.model.do_render({})
		if failed:
			world.model.do_unsure()
			world.dirty = True
		else:
			world.model.do_render({})
			world.dirty = False
		world.verify(f'{what}, which failed' if failed else what)
		return
	if world.dirty and has_style(op):
		return
	if op['op'] == 'append':
		try:
			world.model.clone().apply(op)
		except Refused:
			return
	world.apply(op)
	if twin is not None:
		twin.apply(op)
		if world.dirty:
			twin.exact = False


def run(trace, ctx):
	Plan.reset()
	if trace['mode'] == 'interrupt':
		run_interrupt(trace, ctx)
		return
	if trace['mode'] == 'dense':
		run_dense(trace, ctx)
		return
	world, twin = fresh(trace, ctx), fresh(trace)
	world.dirty = twin.dirty = False
	for i, op in enumerate(trace['history']):
		step(world, twin, trace, op, ctx, f'call {i} {op}')
	world.verify_queries('at the end')
	ctx.log('end', repr(world.observe_fully()) if not world.dirty else None)


def run_dense(trace, ctx):
	"""A render ends within a bounded number of steps, also where there are very many paths."""
	world = fresh(trace, ctx)
	world.dirty = False
	for i, op in enumerate(trace['history']):
		world.apply(op)
	STEPPER.coarse()
	source, error = STEPPER.run(lambda: world.graph.render(view=False), limit=DENSE)
	if error is not None:
		raise Violation('unexpected-error', f'render raised {type(error).__name__}: {error}')
	ctx.log('steps', STEPPER.count)
	ctx.count('renders of dense graphs')
	ctx.count('steps of renders of dense graphs', STEPPER.count)
	ctx.nontrivial = len(world.model.nodes) > 0
	verify_dot(text_of(source, 'render'), world.model, trace['arguments'], 'render')
	expect_equal(render(world, {}, 'again'), text_of(source, 'render'), 'render-not-repeatable', 'again')
	check(all(item.has_style() for item in list(world.graph.nodes) + list(world.graph.edges)), 'not-styled', 'something has no style')


def run_interrupt(trace, ctx):
	exception = EXCEPTIONS[trace['exception']]

	def build():
		world = fresh(trace)
		world.dirty = False
		for i, op in enumerate(trace['history']):
			if op['op'] == 'render':
				must(lambda: world.graph.render(view=False, **op.get('options') or {}), f'{op}')
				world.model.do_render({})
			elif op['op'] != 'failing':
				step(world, None, trace, op, ctx, f'call {i} {op}')
		return world

	twin = build()
	STEPPER.fine()
	options = trace.get('options') or {}
	source, error = STEPPER.run(lambda: twin.graph.render(view=False, **options), limit=BUDGET)
	if error is not None:
		raise Violation('unexpected-error', f'render raised {type(error).__name__}: {error}')
	expected = text_of(source, 'render')
	steps = STEPPER.count
	if options:
		expected = render(twin, {}, 'render without options')
	ctx.log('steps', steps, expected)
	targets = trace.get('only')
	if targets is None:
		stride = max(1, steps // 16)
		targets = range(1 + trace['cut'] % stride, steps + 1, stride)
	for k in targets:
		world = build()
		_, error = STEPPER.run(
			lambda: world.graph.render(view=False, **options), limit=BUDGET, target=k, exception=exception('injected by the simulator')
		)
		if STEPPER.fired is None:
			continue
		ctx.fault(f'{exception.__name__} in a render')
		ctx.points.add(STEPPER.fired)
		ctx.nontrivial = True
		what = f'render interrupted at step {k} (in {STEPPER.fired[0]} line {STEPPER.fired[1]})'
		try:
			check(
				error is None or isinstance(error, exception), 'error-lost', f'{what} raised {type(error).__name__}: {error} instead'
			)
			world.model.do_unsure()
			world.verify(what)
			text = rendered(world, None, trace, {}, f'{what}, repeated')
			expect_equal(
				without_styles(text), without_styles(expected), 'render-depends-on-failure', f'{what}, repeated, against a twin'
			)
		except Violation:
			ctx.resolved = dict(trace, only=[k])
			raise
	ctx.state(sorted(map(repr, twin.model.edges)))
