"""C07: saving an image delivers the complete image of the current graph, or raises."""
import os

from .. import gen as g
from ..callbacks import Plan
from ..core import Violation, check, expect_equal, short
from ..disk import Disk, FORMATS, Layout, empty
from ..dot import verify as verify_dot
from ..model import Model, Refused
from ..mon import BUDGET, STEPPER
from ..world import World, call

ID = 'C07'
LEVEL = 'fault_enumeration'
RUNS = {'quick': 30000, 'thorough': 350000}
LISTS = [('history',), ('history', '*', 'more')]
RULE = (
	'one evaluation = a seeded history of edits and saves (to a file, as SVG text, as notebook representation) on a simulated '
	'disk with a simulated layout program and viewer; a save meets at most two faults, or an interrupt at a chosen step, and is '
	'then repeated without; a save that returns must have delivered the complete image of the current graph under the name asked '
	'for; non-trivial = at least one save; distinct = different traces'
)
TECHNIQUE = 'deterministic simulation of disk, layout program and viewer with fault injection; delivered bytes decoded and compared with the graph and a reference model'
REAL = ['abstract.Graph', 'abstract._GraphWithoutDisplay', 'abstract.styling', 'graphviz (Python package)', 'file system of a scratch folder']
STUB = ['layout program (its output decodes to its input)', 'viewer', 'failing opens, writes, closes, pipes and process starts', 'delivery of interrupts']
EXCEPTIONS = {'keyboard': KeyboardInterrupt, 'memory': MemoryError}
ERRNOS = ('EACCES', 'ENOSPC', 'EROFS', 'EMFILE', 'EISDIR', 'EDQUOT', 'ENAMETOOLONG')
PATHS = (
	'picture.png', 'picture.svg', 'picture.pdf', 'other.png', 'my picture.png', 'a.b.svg', 'below/deeper/picture.png', './picture.jpg',
	'kept/../picture.gif', 'ABS/picture.png', 'picture.v2.ps',
	'picture', 'v1.2/picture', '.hidden.svg', 'picture.cmapx', 'picture.plain-ext', 'picture.json', 'picture.gv', 'graph.xdot'
)
ODD_PATHS = ('picture.PNG', 'picture.xyz', 'picture.Svg', 'picture.png.bak')
BYSTANDERS = {'notes.txt': 'keep me', 'picture.txt': 'me too', 'below.png': 'not yours', 'picture.png.old': 'old', 'kept/data.png': 'data'}
OPTIONS = (
	{}, {}, {}, {'direction': 'TB'}, {'direction': 'RL', 'pad': 0.5}, {'height': 3, 'width': 4}, {'height': 5}, {'width': 6, 'dpi': 100},
	{'dpi': 72}, {'pad': 1, 'height': 2.5}
)


def fault(rng, how, view):
	kind = rng.choice(('open', 'open', 'full', 'close', 'layout', 'layout', 'layout', 'layout', 'viewer') if how == 'save' else ('layout', 'layout', 'pipe'))
	if kind == 'open':
		return {'open': [{'kind': 'open', 'errno': rng.choice(ERRNOS)}]}
	if kind == 'full':
		return {'open': [{'kind': 'full', 'after': rng.choice((0, 1, 30, 200))}]}
	if kind == 'close':
		return {'open': [{'kind': 'close'}]}
	if kind == 'viewer' and view:
		return {'viewer': [{'kind': rng.choice(('missing', 'denied', 'memory'))}]}
	if kind == 'pipe':
		return {'layout': [{'kind': 'pipe', 'after': rng.choice((0, 10, 200))}]}
	return {'layout': [rng.choice((
		{'kind': 'missing'}, {'kind': 'denied'}, {'kind': 'memory'}, {'kind': 'descriptors'},
		{'kind': 'exit', 'share': rng.choice((0, 0, 50, 99)), 'code': rng.choice((1, 2, 127))},
		{'kind': 'signal', 'share': rng.choice((0, 0, 30, 99)), 'code': rng.choice((-9, -11, -15))},
		{'kind': 'noise', 'latency': rng.choice((5, 100, 60000))}
	))]}


def gen(rng, index, tier):
	config = g.configuration(rng, max_nodes=rng.choice((2, 4, 6)))
	config['refuse'] = 0
	model = Model(config['overwrite'])
	trace = {'overwrite': config['overwrite'], 'arguments': g.arguments(rng), 'history': []}
	trace['arguments'].pop('node_label_converter', None)
	first, _ = g.grow(rng, config, rng.randint(0, 5), rng.randint(0, 6), model)
	trace['history'] = first
	target = rng.choice(PATHS)
	for _ in range(rng.choice((1, 2, 3, 4))):
		for _ in range(rng.choice((0, 1, 1, 2))):
			op = g.next_op(rng, config, model)
			if op['op'] == 'connect' and len(model.edges) >= 10:
				continue
			try:
				model.apply(op)
			except Refused:
				pass
			trace['history'].append(op)
		how = rng.choice(('save', 'save', 'save', 'svg', 'html'))
		save = {'op': 'save', 'how': how}
		if how == 'save':
			# the same file again, mostly: what an earlier save left there must not pass for the new image
			save['path'] = target if rng.random() < 0.6 else rng.choice(PATHS if rng.random() < 0.9 else ODD_PATHS)
			save['view'] = rng.random() < 0.4
			save['stale'] = rng.random() < 0.3
		if how != 'html':
			save['options'] = {
				key: value for key, value in rng.choice(OPTIONS).items() if how == 'save' or key in ('direction', 'pad')
			}
		if rng.random() < 0.6:
			save['faults'] = fault(rng, how, save.get('view'))
			if rng.random() < 0.2:
				for key, value in fault(rng, how, save.get('view')).items():
					save['faults'].setdefault(key, value)
		elif rng.random() < 0.3:
			save['interrupt'] = rng.choice(sorted(EXCEPTIONS))
			save['step'] = rng.randint(0, 9999)
		trace['history'].append(save)
	return trace


def expected_text(world, trace, save, what):
	"""The DOT text whose image is asked for."""
	options = save.get('options') or {}
	text, error = call(lambda: world.graph.get_graphviz_str(**options))
	if error is not None:
		raise Violation('unexpected-error', f'{what}: get_graphviz_str raised {type(error).__name__}: {error}')
	return text.strip()


def verify_text(text, world, trace, save, what):
	found = verify_dot(text, world.model, trace['arguments'], what)
	options = save.get('options') or {}
	header = found['graph']
	expect_equal(
		header.get('rankdir', 'TB'), options.get('direction') or trace['arguments'].get('direction') or 'LR',
		'wrong-image', f'{what}: direction'
	)
	expect_equal(header.get('pad'), str(options.get('pad', 0.1)), 'wrong-image', f'{what}: pad')
	height, width = options.get('height'), options.get('width')
	if height is not None and width is not None:
		size = f'{width},{height}!'
	else:
		size = None if height is None and width is None else f'{height if width is None else width}!'
	expect_equal(header.get('size'), size, 'wrong-image', f'{what}: size')


def perform(world, disk, save, path):
	options = save.get('options') or {}
	if save['how'] == 'save':
		return lambda: world.graph.render(path=path, view=save.get('view', False), **options)
	if save['how'] == 'svg':
		return lambda: world.graph.get_svg(**options)
	return lambda: world.graph._repr_html_()


def stem_and_kind(path):
	stem, kind = os.path.splitext(path)
	return stem, kind.lstrip('.') or 'pdf'  # what the layout package writes unless told otherwise


def attempt(world, disk, trace, save, faults, ctx, what, interrupt=None):
	"""One save, with these faults; returns True if it delivered."""
	disk.plan(faults)
	path = save.get('path')
	if path is not None and path.startswith('ABS/'):
		path = os.path.join(disk.work, path[4:])
	before = disk.snapshot()
	function = perform(world, disk, save, path)
	fired = False
	if interrupt is None:
		result, error = call(function)
	else:
		exception = EXCEPTIONS[interrupt[0]]
		STEPPER.fine()
		result, error = STEPPER.run(function, limit=BUDGET, target=interrupt[1], exception=exception('injected by the simulator'))
		fired = STEPPER.fired is not None
		if fired:
			ctx.fault(f'{exception.__name__} in a save')
			ctx.points.add(STEPPER.fired)
			what = f'{what}, interrupted at step {interrupt[1]} (in {STEPPER.fired[0]} line {STEPPER.fired[1]})'
			if error is not None and not isinstance(error, exception):
				raise Violation('error-lost', f'{what}, raised {type(error).__name__}: {error} instead')
	ctx.sim_time += disk.time
	disk.time = 0
	disk.verify_contained(what)
	hits = list(disk.hits)
	after = disk.snapshot()
	changed = {name for name in set(before) | set(after) if before.get(name, 0) != after.get(name, 0)}
	allowed = set()
	kind, image = 'svg', None
	if path is not None:
		stem, kind = stem_and_kind(os.path.relpath(os.path.join(disk.work, path), disk.work))
		image = f'{stem}.{kind}'
		allowed = {stem, image}
		parent = os.path.dirname(stem)
		while parent:
			allowed.add(parent + '/')
			parent = os.path.dirname(parent)
	check(changed <= allowed, 'touched-elsewhere', f'{what} changed {sorted(changed - allowed)}')
	ctx.log(what, repr(error) if error is not None else None, hits, sorted(changed))
	if error is not None:
		strange = path is not None and kind not in FORMATS
		if not hits and not fired and not strange:
			raise Violation('unexpected-error', f'{what} raised {type(error).__name__}: {short(str(error), 300)}')
		if not any('viewer' in hit for hit in hits) and not fired:
			check(not disk.viewed, 'viewed-nothing', f'{what} raised {error!r}, but {disk.viewed} was opened')
		return False
	world.model.do_render({})
	expected = expected_text(world, trace, save, what)
	verify_text(expected, world, trace, save, what)
	content = after.get(image) if image is not None else result
	if image is not None:
		check(content is not None, 'not-delivered', f'{what} returned, but there is no {image}; faults: {hits}')
	else:
		check(isinstance(content, str), 'not-delivered', f'{what} returned {short(content, 100)}')
	source = Layout.source(content, kind)
	check(source is not None, 'not-delivered', f'{what} returned, but gave no complete {kind} image: {short(content, 200)}; faults: {hits}')
	expect_equal(source, expected, 'wrong-image', what)
	if save['how'] == 'save':
		text = getattr(result, 'source', None)
		check(isinstance(text, str), 'wrong-image', f'{what} returned {short(result, 100)}')
		verify_dot(text.strip(), world.model, trace['arguments'], f'{what}: returned source')
		if save.get('view'):
			if not any('viewer' in hit for hit in hits):
				check(len(disk.viewed) == 1, 'not-viewed', f'{what} opened {len(disk.viewed)} viewers')
		else:
			check(not any(p['program'] != 'dot' for p in disk.processes), 'viewed-unasked', f'{what} started {disk.processes}')
		for entry in disk.viewed:
			expect_equal(os.path.relpath(entry['path'], disk.work), image, 'viewed-wrong', f'{what}: file opened')
			expect_equal(entry['content'], content, 'viewed-wrong', f'{what}: content opened')
	else:
		check(not any(p['program'] != 'dot' for p in disk.processes), 'viewed-unasked', f'{what} started {disk.processes}')
	return True


def run(trace, ctx):
	Plan.reset()
	world = World(trace['arguments'], trace['overwrite'], ctx=ctx)
	empty(ctx.scratch)
	with Disk(ctx.scratch, ctx) as disk:
		for name, content in BYSTANDERS.items():
			os.makedirs(os.path.dirname(os.path.join(disk.work, name)), exist_ok=True)
			with open(os.path.join(disk.work, name), 'w') as file:
				file.write(content)
		unsure = False
		for i, op in enumerate(trace['history']):
			what = f'call {i} {op}'
			if op['op'] != 'save':
				if unsure and (op.get('attrs', {}).get('style') is not None or op.get('field') == 'style'):
					continue
				world.apply(op)
				continue
			ctx.count('saves')
			ctx.nontrivial = True
			if op.get('stale') and op.get('path') and not op['path'].startswith('ABS'):
				place(disk, op['path'])
			if op.get('interrupt'):
				steps = steps_of(world, disk, op)
				ok = attempt(world, disk, trace, op, None, ctx, what, interrupt=(op['interrupt'], 1 + op['step'] % max(1, steps)))
			else:
				ok = attempt(world, disk, trace, op, op.get('faults'), ctx, what)
			if not ok:
				world.model.do_unsure()
				world.verify(f'{what}, which failed')
				if op.get('path') is None or stem_and_kind(op['path'])[1] in FORMATS:
					ok = attempt(world, disk, trace, op, None, ctx, f'{what}, repeated without the fault')
					check(ok, 'unexpected-error', f'{what}, repeated without the fault, failed')
			unsure = not ok
			world.verify(what)
		ctx.state(sorted(disk.snapshot()))
		disk.verify_contained('at the end')


def place(disk, path):
	"""An image that somebody saved there long ago."""
	disk.plan(None)
	target = os.path.join(disk.work, path)
	os.makedirs(os.path.dirname(target), exist_ok=True)
	with open(target, 'w', encoding='utf-8') as file:
		file.write(Layout.image('digraph G{ old }', stem_and_kind(path)[1]))


def steps_of(world, disk, save):
	"""How many steps this save takes (measured on a copy)."""
	twin = World(graph=world.graph.copy(), model=world.model)
	disk.plan(None)
	STEPPER.fine()
	dry = dict(save, how='svg' if save['how'] == 'save' else save['how'], options={})
	_, error = STEPPER.run(perform(twin, disk, dry, None), limit=BUDGET)
	if error is not None:
		raise Violation('unexpected-error', f'{dry} raised {type(error).__name__}: {error}')
	return STEPPER.count
