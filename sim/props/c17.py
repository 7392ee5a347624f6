"""C17: the display options of a graph show in every text it gives, those of one render in that one only."""
import base64
import copy
import pickle

from .. import gen as g
from ..callbacks import CONVERTERS, Plan
from ..child import Helpers
from ..core import Violation, check, expect_equal, short
from ..disk import Disk, Layout, empty
from ..dot import parse
from ..mon import BUDGET, STEPPER
from ..sched import Scheduler, gen_plan, resolve
from ..sut import Graph, colouration
from ..world import call, must

ID = 'C17'
LEVEL = 'exploration'
RUNS = {'quick': 12000, 'thorough': 130000}
LISTS = [('history',), ('history', '*', 'threads'), ('history', '*', 'plan')]
HASH_SEEDS = (17,)
RULE = (
	'one evaluation = one to three graphs with display options of their own (some share a colour object or a dictionary), with a '
	'seeded history of edits, new backgrounds (valid and not), renders, sources, saved images and SVG exports with options of '
	'their own, renders that fail or are interrupted, copies, filters, snapshots restored here or in another process, appended '
	'descriptions, merges, and threads that ask for texts with options of their own; the header of every text and delivered image is compared with the options given, and those of all '
	'graphs after every call; non-trivial = at least two texts, one of them with options of its own; distinct = different traces'
)
TECHNIQUE = 'deterministic simulation: seeded histories of renders with options, failing and interrupted renders, copies and snapshots over several graphs, against a model of the options given'
REAL = [
	'abstract.Graph', 'abstract._GraphWithoutDisplay', 'abstract._BasicGraph', 'abstract.Node', 'abstract.Edge', 'abstract.styling',
	'colouration', 'graphviz (Python package)', 'second process with another hash seed', 'threads of the operating system (one at a time)'
]
STATES = 'headers of all graphs at the end of a run'
STUB = ['layout program (simulated process)', 'failing file writes', 'label converters of the caller', 'delivery of interrupts', 'thread scheduler']
Colour = colouration.Colour
EXCEPTIONS = {'keyboard': KeyboardInterrupt, 'memory': MemoryError}
PLAIN = object()
GIVEN = {
	'strict': (True, False), 'ordering': (True, False), 'direction': ('LR', 'TB', 'RL', 'BT', 'lr', 'tb'), 'background_colour': ('white', '#FFEEDD', 'aliceblue', 'red'),
	'font': ('courier', 'times', None), 'label': ('Title', 'two words', '', None, '<<b>bold</b>>', 'Größe'), 'label_url': ('https://example.org/x', None),
	'tooltip': ('a tip', 'tip of "x"'.replace('"', "'"), None), 'label_location': ('top', 'bottom'), 'font_size': (7, 22, None),
	'label_colour': ('red', '#102030', None), 'label_background_colour': ('yellow', '#ABCDEF')
}
EXTRA = {'nodesep': (1, 0.5), 'ranksep': (2, '0.75'), 'splines': ('ortho', 'line'), 'concentrate': ('true',), 'rotate': (90,)}
OPTIONS = {'direction': ('TB', 'RL', 'BT', 'LR', 'bt'), 'pad': (0, 0.5, 3, None), 'height': (3, 4.5), 'width': (6, 7.5), 'dpi': (50, None)}
# what each way to ask for a text understands
UNDERSTOOD = {
	'render': ('direction', 'pad', 'dpi'), 'text': tuple(OPTIONS), 'source': tuple(OPTIONS), 'header': tuple(OPTIONS), 'save': tuple(OPTIONS),
	'svg': ('direction', 'pad'), 'default': (), 'repr': ()
}
# a description can give these
DESCRIBED = ('strict', 'ordering', 'label', 'label_url', 'tooltip', 'direction')
DEFAULT_LABEL, DEFAULT_URL = '\nPowered by Abstract', 'https://github.com/idin/abstract'
BAD_COLOURS = ('no such colour', '#12', '')
_fresh = {}


def start_helpers(config):
	return Helpers(HASH_SEEDS)


def options_of(rng, how):
	keys = UNDERSTOOD[how]
	if not keys or rng.random() < 0.25:
		return {}
	return {key: rng.choice(OPTIONS[key]) for key in rng.sample(keys, rng.randint(1, len(keys)))}


def gen(rng, index, tier):
	names = list('abcdef')[:rng.choice((3, 4, 6))]
	count = rng.choice((1, 2, 2))
	trace = {'graphs': [], 'history': [], 'exception': rng.choice(sorted(EXCEPTIONS)), 'share': rng.random() < 0.3}
	for _ in range(count):
		given = {key: rng.choice(GIVEN[key]) for key in rng.sample(sorted(GIVEN), rng.choice((0, 1, 2, 4, 9)))}
		for key in rng.sample(sorted(EXTRA), rng.choice((0, 0, 1, 2))):
			given[key] = rng.choice(EXTRA[key])
		graph = {'given': given}
		if rng.random() < 0.3:
			graph['converter'] = rng.choice(('upper', 'bracket'))
		trace['graphs'].append(graph)
	total = count
	kinds, weights = zip(*{
		'add': 5, 'connect': 4, 'remove': 0.7, 'label': 0.7, 'background': 1.5, 'show': 8, 'fail': 3, 'copy': 1.2, 'append': 1, 'describe': 0.7, 'merge': 0.5,
		'child': 0.3, 'threads': 0.5
	}.items())
	for _ in range(rng.choice((6, 12, 20, 30))):
		i = rng.randrange(total)
		kind = rng.choices(kinds, weights)[0]
		op = {'op': kind, 'graph': i}
		if kind == 'add':
			op['name'] = rng.choice(names)
		elif kind == 'connect':
			op['edge'] = [rng.choice(names), rng.choice(names)]
		elif kind in ('remove', 'label'):
			op['name'] = rng.choice(names)
		elif kind == 'background':
			op['to'] = rng.choice(BAD_COLOURS) if rng.random() < 0.3 else rng.choice(('black', '#00FF80', 'beige', 'blue'))
			op['as'] = rng.choice(('text', 'object'))
		elif kind == 'show':
			op['how'] = rng.choice(sorted(UNDERSTOOD))
			op['options'] = options_of(rng, op['how'])
		elif kind == 'fail':
			op['how'] = rng.choice(('converter', 'interrupt', 'interrupt', 'layout', 'file', 'option'))
			op['options'] = options_of(rng, 'save' if op['how'] in ('layout', 'file') else 'render')
			op['at'], op['share'] = rng.randint(1, 5), rng.randint(0, 999)
		elif kind == 'copy':
			if total >= 3:
				continue
			op['how'] = rng.choice(('copy', 'deepcopy', 'pickle', 'filter', 'convert'))
			total += 1
		elif kind in ('append', 'merge'):
			op['from'] = rng.randrange(total)
			if op['from'] == i and kind == 'append':
				continue
		elif kind == 'describe':
			op['described'] = {key: rng.choice(GIVEN[key]) for key in rng.sample(DESCRIBED, rng.choice((1, 2, 3)))}
		elif kind == 'threads':
			op['threads'] = [
				[
					{'graph': i if rng.random() < 0.8 else rng.randrange(total), 'how': how, 'options': options_of(rng, how)}
					for how in rng.choices(('text', 'source', 'header'), k=rng.choice((1, 2)))
				] for _ in range(rng.choice((2, 2, 3)))
			]
			op['plan'] = gen_plan(rng)
		elif kind == 'child':
			op['options'] = options_of(rng, 'text')
		trace['history'].append(op)
	for how in rng.sample(sorted(UNDERSTOOD), 2):
		trace['history'].append({'op': 'show', 'graph': rng.randrange(total), 'how': how, 'options': options_of(rng, how)})
	return trace


def hexadecimal(colour):
	return Colour(obj=colour).hexadecimal


def defaults(ordering=True):
	"""What a graph shows for which nothing was given, before anything else happened in this process."""
	if 'defaults' not in _fresh:
		_fresh['defaults'] = {
			ordering: parse(must(lambda: Graph(ordering=ordering).get_graphviz_str(), 'an empty graph'))['graph'] for ordering in (True, False)
		}
	return dict(_fresh['defaults'][ordering])


class Side:
	def __init__(self, graph, given):
		self.graph = graph
		self.given = given
		self.background = given.get('background_colour', PLAIN)
		self.nodes = []
		self.edges = 0


def expected(given, background, options):
	"""The attributes in the header, and strictness.  The title with a background is compared separately."""
	result = defaults(given.get('ordering', True))
	label = given.get('label', PLAIN)
	if label is not PLAIN:
		result['label'] = label
		if label is not None and label.startswith('<') and label.endswith('>'):
			result['label'] = label[1:-1]
	of_title = {'labelloc': 'label_location', 'fontsize': 'font_size', 'fontname': 'font', 'fontcolor': 'label_colour', 'href': 'label_url'}
	for key, name in of_title.items():
		if name in given:
			value = given[name]
			result[key] = value[0] if name == 'label_location' else value
	if given.get('label_url', PLAIN) is None:
		result['target'] = None
	if label is None:
		# nothing about a title that is not there
		for key in ('label', 'target', *of_title):
			result[key] = None
	if 'tooltip' in given:
		result['tooltip'] = given['tooltip']
	for key in EXTRA:
		if key in given:
			result[key] = given[key]
	if background is not PLAIN:
		result['bgcolor'] = hexadecimal(background)
	if 'pad' in options:
		result['pad'] = options['pad']
	direction = options.get('direction') or given.get('direction')
	if direction is not None:
		result['rankdir'] = direction.upper()
	result.setdefault('rankdir', 'TB')
	height, width = options.get('height'), options.get('width')
	if height is not None or width is not None:
		result['size'] = f'{width},{height}!' if None not in (height, width) else f'{height or width}!'
		result['ratio'] = 'fill'
	return {key: str(value) for key, value in result.items() if value is not None}


def verify(text, given, background, options, what):
	found = parse(text)
	header, wanted = dict(found['graph']), expected(given, background, options)
	header.setdefault('rankdir', 'TB')
	paint = given.get('label_background_colour')
	label = wanted.get('label')
	if paint is not None and label is not None and not (given.get('label') or '').startswith('<'):
		got = header.pop('label', '')
		del wanted['label']
		check(paint in got and label in got, 'wrong-option', f'{what}: title {label!r} on {paint}: {short(got, 200)}')
	expect_equal(sorted(header.items()), sorted(wanted.items()), 'wrong-option', f'{what}: header')
	expect_equal(found['strict'], bool(given.get('strict', False)), 'wrong-option', f'{what}: strictness')


class Simulation:
	def __init__(self, trace, ctx):
		self.trace, self.ctx = trace, ctx
		self.sides = []
		self.shown = self.with_options = 0
		defaults()
		shared = Colour(obj='lavender')
		for spec in trace['graphs']:
			arguments = dict(spec['given'])
			if 'converter' in spec:
				arguments['node_label_converter'] = CONVERTERS[spec['converter']]
			given = dict(spec['given'])
			if trace['share'] and 'background_colour' in given:
				# one object for several graphs
				arguments['background_colour'] = shared
				given['background_colour'] = 'lavender'
			self.sides.append(Side(must(lambda: Graph(**arguments), 'Graph()'), given))

	# the edits
	def on_add(self, side, op, what):
		if op['name'] not in side.nodes:
			must(lambda: side.graph.add_node(name=op['name']), what)
			side.nodes.append(op['name'])

	def on_connect(self, side, op, what):
		if set(op['edge']) <= set(side.nodes) and side.edges < 9:
			must(lambda: side.graph.connect(start=op['edge'][0], end=op['edge'][1], if_edge_exists='ignore'), what)
			side.edges += 1

	def on_remove(self, side, op, what):
		if op['name'] in side.nodes:
			must(lambda: side.graph.remove_node(node=op['name']), what)
			side.nodes.remove(op['name'])

	def on_label(self, side, op, what):
		if op['name'] in side.nodes:
			must(lambda: setattr(side.graph.get_node(op['name']), 'label', 'label of ' + op['name']), what)

	def on_background(self, side, op, what):
		valid = op['to'] not in BAD_COLOURS
		value = Colour(obj=op['to']) if valid and op['as'] == 'object' else op['to']
		_, error = call(lambda: setattr(side.graph, 'background_colour', value))
		if valid:
			if error is not None:
				raise Violation('refused-valid-edit', f'{what} raised {type(error).__name__}: {short(str(error), 200)}')
			side.background = op['to']
		elif error is not None:
			self.ctx.fault('refused: background')
		else:
			# whatever was made of it shows from now on
			side.background = must(lambda: side.graph.background_colour, what)
		if side.background is not PLAIN and not isinstance(side.background, Colour):
			expect_equal(must(lambda: side.graph.background_colour.hexadecimal, what), hexadecimal(side.background), 'wrong-option', what)

	# texts
	def on_show(self, side, op, what):
		graph, options, how = side.graph, op['options'], op['how']
		shown = dict(options)
		if how in ('render', 'default'):
			text = must(lambda: graph.render(view=False, **options), what).source
		elif how == 'text':
			text = must(lambda: graph.get_graphviz_str(**options), what)
		elif how == 'source':
			text = must(lambda: graph.get_graphviz_source(**options), what).source
		elif how == 'header':
			text = must(lambda: graph.get_graphviz_header(**options), what) + '\n}'
		else:
			empty(self.ctx.scratch)
			with Disk(self.ctx.scratch, self.ctx) as disk:
				if how == 'save':
					returned = must(lambda: graph.render(path='picture.svg', view=False, **options), what)
					content = disk.snapshot().get('picture.svg')
					if returned is not None:
						verify(returned.source, side.given, side.background, {k: v for k, v in options.items() if k in ('direction', 'pad')}, f'{what}, returned')
				else:
					content = must(lambda: graph._repr_html_() if how == 'repr' else graph.get_svg(**options), what)
				disk.verify_contained(what)
			check(content is not None, 'wrong-option', f'{what}: no image')
			text = Layout.source(content, 'svg')
			check(text is not None, 'wrong-option', f'{what}: no complete image but {short(content, 100)}')
		verify(text, side.given, side.background, shown, what)
		self.shown += 1
		self.with_options += bool(options)
		self.ctx.count('texts')

	def ask(self, one):
		function = {
			'text': lambda graph: graph.get_graphviz_str, 'source': lambda graph: graph.get_graphviz_source,
			'header': lambda graph: graph.get_graphviz_header
		}[one['how']](self.sides[one['graph']].graph)
		text = function(**one['options'])
		text = getattr(text, 'source', text)
		return text + '\n}' if one['how'] == 'header' else text

	def on_threads(self, side, op, what):
		"""Several threads ask for texts with options of their own."""
		threads = [[one for one in thread if one['graph'] < len(self.sides)] for thread in op['threads']]
		functions = [lambda thread=thread: [self.ask(one) for one in thread] for thread in threads]
		if len(functions) < 2:
			return
		STEPPER.threads()
		rehearsal = Scheduler(functions, rehearse=True)
		alone = rehearsal.run()
		scheduler = Scheduler(functions, resolve(op['plan'], rehearsal))
		results = scheduler.run()
		STEPPER.coarse()
		self.ctx.points |= scheduler.points
		self.ctx.fault('thread switch inside a call', scheduler.switched)
		for schedule, found in (('one after another', alone), ('interleaved', results)):
			for thread, (texts, error) in zip(threads, found):
				if error is not None:
					raise Violation('unexpected-error', f'{what}, {schedule}, raised {type(error).__name__}: {error}')
				for one, text in zip(thread, texts):
					other = self.sides[one['graph']]
					verify(text, other.given, other.background, one['options'], f'{what}, {schedule}, {one}')

	def on_fail(self, side, op, what):
		options = op['options']
		how = op['how']
		if how == 'converter':
			Plan.reset(fail_at=op['at'])
			_, error = call(lambda: side.graph.render(view=False, **options))
			fired = Plan.fired
			Plan.reset()
			name = 'label converter failed'
		elif how in ('layout', 'file'):
			empty(self.ctx.scratch)
			with Disk(self.ctx.scratch, self.ctx) as disk:
				disk.plan({'layout': [{'kind': 'exit', 'share': 0}]} if how == 'layout' else {'open': [{'kind': 'open', 'errno': 'ENOSPC'}]})
				_, error = call(lambda: side.graph.render(path='picture.svg', view=False, **options))
				fired = bool(disk.hits)
				disk.verify_contained(what)
			name = None
		elif how == 'option':
			# a direction that is none
			_, error = call(lambda: side.graph.render(view=False, **{**options, 'direction': 7}))
			if error is None:
				return
			fired, name = True, 'refused: direction'
		else:
			STEPPER.fine()
			trial = must(side.graph.copy, 'copy')
			_, error = STEPPER.run(lambda: trial.render(view=False, **options), limit=BUDGET)
			if error is not None:
				raise Violation('unexpected-error', f'{what} raised {type(error).__name__}: {error}')
			exception = EXCEPTIONS[self.trace['exception']]
			_, error = STEPPER.run(
				lambda: side.graph.render(view=False, **options), limit=BUDGET, target=1 + STEPPER.count * op['share'] // 1000,
				exception=exception('injected by the simulator')
			)
			fired = STEPPER.fired
			STEPPER.coarse()
			if fired:
				self.ctx.points.add(fired)
			name = f'{exception.__name__} in a render'
		if not fired and error is not None:
			raise Violation('unexpected-error', f'{what} raised {type(error).__name__}: {error}')
		if fired and name:
			self.ctx.fault(name)

	# other graphs
	def on_copy(self, side, op, what):
		if len(self.sides) >= 3:
			return
		if op['how'] == 'filter':
			if not side.nodes:
				return
			graph = must(lambda: side.graph.filter(nodes=[side.nodes[0]], direction='to_and_from'), what)
		else:
			graph = must({
				'copy': side.graph.copy, 'deepcopy': lambda: copy.deepcopy(side.graph),
				'pickle': lambda: pickle.loads(pickle.dumps(side.graph)), 'convert': lambda: Graph(side.graph)
			}[op['how']], what)
		given = dict(side.given)
		if op['how'] == 'convert':
			given = {}
		twin = Side(graph, given)
		if op['how'] == 'convert':
			self.hand_on(side, twin)
		if op['how'] != 'convert':
			twin.background = side.background
		twin.edges = side.edges
		twin.nodes = [node.name for node in graph.nodes]
		self.sides.append(twin)
		self.ctx.count('op:copy')

	def on_append(self, side, op, what):
		if op['from'] >= len(self.sides):
			return
		source = self.sides[op['from']]
		if source is side or set(source.nodes) & set(side.nodes) or source.edges + side.edges > 9:
			return
		must(lambda: side.graph.append(source.graph), what)
		self.hand_on(source, side)
		side.nodes.extend(source.nodes)
		side.edges += source.edges
		self.ctx.count('op:appended graph')

	def take_over(self, side, described):
		"""A description that comes with display options."""
		for key, value in described.items():
			if key == 'label' and value is not None and not value.startswith(('\n', '<')):
				value = '\n' + value
			side.given[key] = value

	def hand_on(self, source, side):
		"""What a graph hands on to another one that takes it in."""
		self.take_over(side, {
			'strict': source.given.get('strict', False), 'ordering': source.given.get('ordering', True),
			'label': source.given.get('label', DEFAULT_LABEL), 'label_url': source.given.get('label_url', DEFAULT_URL)
		})

	def on_describe(self, side, op, what):
		description = {'nodes': [], 'edges': [], **op['described']}
		before = copy.deepcopy(description)
		_, error = call(lambda: side.graph.append(description))
		if error is not None:
			raise Violation('refused-valid-edit', f'{what} raised {type(error).__name__}: {short(str(error), 200)}')
		expect_equal(description, before, 'wrong-option', f'{what}: the description itself')
		self.take_over(side, op['described'])
		self.ctx.count('op:described options')

	def on_merge(self, side, op, what):
		if op['from'] < len(self.sides):
			other = self.sides[op['from']]
			if side.edges + other.edges <= 9:
				result = must(lambda: side.graph + other.graph, what)
				given = {key: side.given[key] for key in ('strict', 'ordering') if key in side.given}
				verify(must(lambda: result.render(view=False), what).source, given, PLAIN, {}, f'{what}: the result')
				self.ctx.count('op:merge')

	def on_child(self, side, op, what):
		data = must(lambda: pickle.dumps(side.graph), what)
		self.ctx.helpers[0].request({
			'property': ID, 'data': base64.b64encode(data).decode(), 'given': side.given,
			'background': side.background.hexadecimal if isinstance(side.background, Colour) else None if side.background is PLAIN else side.background,
			'options': op['options']
		})
		self.ctx.count('op:restored in another process')

	def settled(self, what):
		for i, side in enumerate(self.sides):
			verify(must(side.graph.get_graphviz_header, what) + '\n}', side.given, side.background, {}, f'{what}: graph {i}')


def in_child(request):
	graph = must(lambda: pickle.loads(base64.b64decode(request['data'])), 'unpickling')
	background = PLAIN if request['background'] is None else request['background']
	for options in ({}, request['options'], {}):
		verify(must(lambda: graph.get_graphviz_str(**options), 'restored'), request['given'], background, options, f'restored, with {options}')
	verify(must(lambda: graph.render(view=False), 'restored').source, request['given'], background, {}, 'restored, rendered')
	return True


def run(trace, ctx):
	Plan.reset()
	simulation = Simulation(trace, ctx)
	for i, op in enumerate(trace['history']):
		if op['graph'] >= len(simulation.sides):
			continue
		what = f'call {i} {op}'
		getattr(simulation, 'on_' + op['op'])(simulation.sides[op['graph']], op, what)
		simulation.settled(what)
		ctx.log(what)
	ctx.nontrivial = simulation.shown >= 2 and simulation.with_options >= 1
	headers = [must(side.graph.get_graphviz_header, 'the last header') for side in simulation.sides]
	ctx.state(sorted(headers))
	ctx.log('end', headers)
