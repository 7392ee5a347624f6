"""Programs: what one simulated thread or process does with graphs of its own, and the transcript of the answers it gets."""
import copy
import os
import pickle
import warnings

from colouration import Scheme

from . import gen as g
from .core import Violation, check, expect_equal, short
from .disk import Disk, Layout
from .model import Model, Refused, style_view
from .mon import STEPPER
from .sut import Graph, Node, Edge, NodeStyle, EdgeStyle, get_ancestors, get_descendants
from .world import World, call, observe, observe_fully, settings, make_style

QUESTIONS = ('dot', 'tree', 'roots', 'relatives', 'distances', 'loops', 'content', 'settings', 'neighbours', 'similar', 'subject')


class Relative:
	"""A local object with relatives, of the simulated caller."""

	def __init__(self, name, network):
		self.name = name
		self.network = network

	def __parents__(self):
		return [self.network[a] for a, b in self.network['edges'] if b == self.name]

	def __children__(self):
		return [self.network[b] for a, b in self.network['edges'] if a == self.name]

	def __hash__(self):
		return self.name

	def __eq__(self, other):
		return self is other

	def __str__(self):
		return f'object {self.name}'


class Settings(dict):
	"""A dictionary with a style, which is handed to every graph as it is."""


class Materials:
	"""What several programs share: style objects, descriptions, a colour scheme."""

	def __init__(self):
		self.styles = {}
		self.descriptions = {}
		self.dictionaries = {}
		self.schemes = {}

	def scheme(self, name):
		if name not in self.schemes:
			self.schemes[name] = Scheme(name=name)
		return self.schemes[name]

	def style(self, kind, style):
		settings = style_view(style)
		key = (kind, style['shared'], tuple(sorted((k, str(v)) for k, v in settings.items())))
		if key not in self.styles:
			self.styles[key] = (NodeStyle if kind == 'node' else EdgeStyle)(**settings)
		return self.styles[key]


class Player(World):
	"""One graph and the program that works on it; every call is also predicted by the reference model."""

	def __init__(self, program, materials=None):
		self.materials = materials if materials is not None else Materials()
		arguments = dict(program['arguments'])
		for key in ('node_style', 'edge_style'):
			if arguments.get(key) is not None:
				name = (key, repr(sorted(arguments[key].items())))
				arguments[key] = self.materials.dictionaries.setdefault(name, Settings(arguments[key]))
		if isinstance(arguments.get('colour_scheme'), dict):
			arguments['colour_scheme'] = self.materials.scheme(arguments['colour_scheme']['scheme'])
		self.program = program
		super().__init__(arguments, program['overwrite'])
		self.unsure = False

	def make_style(self, kind, style):
		if style is not None and style.get('as') == 'shared':
			return self.materials.style(kind, style)
		return make_style(kind, style)

	def with_warnings(self, op, function):
		return function(), []

	def on_append(self, op):
		if 'shared' not in op:
			return super().on_append(op)
		key = op['shared']
		if key not in self.materials.descriptions:
			self.materials.descriptions[key] = self.description(op)
		return self.graph.append(self.materials.descriptions[key])

	def play(self):
		"""The transcript of the whole program."""
		return [self.do(op) for op in self.program['ops']] + [ask(self.graph, 'content')]

	def do(self, op):
		kind = op['op']
		if kind == 'append':
			try:
				self.model.clone().apply(op)
			except Refused:
				return 'not applicable'
		if hasattr(self, 'play_' + kind):
			result, error = call(lambda: getattr(self, 'play_' + kind)(op))
			if error is not None:
				return f'{type(error).__name__}'
			return result
		return text_of(self.apply(op))

	def play_ask(self, op):
		return ask(self.graph, op['what'])

	def play_render(self, op):
		text = self.graph.render(view=False).source
		self.model.do_render({})
		return text

	def play_save(self, op):
		"""Saves to a file of its own; its own disk fault, if any, waits for it."""
		disk = Disk.current
		stem, extension = os.path.splitext(op['path'])
		if op.get('fault'):
			disk.waiting[op['fault']['where'], stem] = op['fault']
		result, error = call(lambda: self.graph.render(path=op['path'], view=False, **op.get('options', {})))
		disk.waiting.pop((op['fault']['where'], stem) if op.get('fault') else None, None)
		self.model.do_render({})
		folder = os.path.dirname(os.path.join(disk.work, op['path']))
		files = {}
		for name in sorted(os.listdir(folder)):
			with open(os.path.join(folder, name), 'rb') as file:
				files[name] = file.read()
		image = files.get(os.path.basename(op['path']))
		if error is not None:
			return text_of([type(error).__name__, files])
		shown = image and Layout.source(image, extension[1:])
		check(shown is not None, 'no-image', f'saving to {op["path"]} returned, but there is no complete image: {short(image)}')
		return text_of([result.source, files])

	def play_svg(self, op):
		result, error = call(lambda: self.graph.get_svg(**op.get('options', {})))
		self.model.do_render({})
		return text_of(result if error is None else type(error).__name__)

	def play_copy(self, op):
		other = copy.deepcopy(self.graph) if op.get('deep') else self.graph.copy()
		result = text_of(observe_fully(other))
		check(self.graph.is_similar_to(other) and other.is_similar_to(self.graph), 'copy', 'a copy is not similar')
		if op.get('adopt'):
			self.switch(other)
		return result

	def play_pickle(self, op):
		other = pickle.loads(pickle.dumps(self.graph, protocol=op['protocol']))
		result = text_of(observe_fully(other))
		if op.get('adopt'):
			self.switch(other)
		return result

	def switch(self, other):
		self.graph = other
		self.stale_edges, self.stale_nodes = [], []
		self.adopt()

	def play_filter(self, op):
		names = [name for name in op['nodes'] if name in self.model.nodes]
		return text_of(observe_fully(self.graph.filter(nodes=names, direction=op['direction'], filter_type=op['type'])))

	def play_merge(self, op):
		other = Graph(**(op.get('arguments') or {}))
		for name, attrs in op['nodes']:
			other.add_node(name=name, if_node_exists='ignore', **attrs)
		for start, end, attrs in op['edges']:
			other.connect(start=start, end=end, if_edge_exists='ignore', **attrs)
		function = {None: None, 'first': lambda x, y: x, 'pair': lambda x, y: (x, y)}[op.get('function')]
		result = [observe_fully(self.graph.add(other, add_values_function=function))]
		result.append(observe_fully(other.add(self.graph, add_values_function=function)))
		if op.get('render'):
			result.append(self.graph.add(other, add_values_function=function).render(view=False).source)
		return text_of(result)

	def play_random(self, op):
		return text_of(observe_fully(Graph.random(**op['arguments'])))

	def play_outline(self, op):
		graph = Graph.from_indented_text(root='the root', lines=op['lines'], indent=op.get('indent'))
		return text_of([observe(graph), graph.get_tree_str()])

	def play_lists(self, op):
		return text_of(observe(Graph.from_lists(start=op['start'], end=op['end'], edge=op['edge'])))

	def play_object(self, op):
		network = {'edges': op['edges']}
		for a, b in op['edges']:
			for name in (a, b):
				network.setdefault(name, Relative(name, network))
		if not op['edges']:
			return ''
		start = network[op['edges'][0][0]]
		result = [
			[o.name for o in get_ancestors(start, distance=False)], [o.name for o in get_descendants(start, distance=False)],
			{d: [o.name for o in group] for d, group in get_ancestors(start, max_height=op.get('limit')).items()},
			{d: [o.name for o in group] for d, group in get_descendants(start, max_depth=op.get('limit')).items()},
			observe(Graph.from_object(start, max_depth=op.get('limit'), max_height=op.get('limit')))
		]
		return text_of(result)


def text_of(obj):
	"""A text that distinguishes everything that matters, including order."""
	return repr(obj)


def names(nodes):
	return [node.name for node in nodes]


def ask(graph, what):
	"""The answer to one question about a graph, which must not change it; an error is an answer as well."""
	result, error = call(lambda: answer(graph, what))
	return result if error is None else f'raised {type(error).__name__}'


def answer(graph, what):
	if what == 'dot':
		return graph.get_graphviz_str(direction='TB', height=3)
	if what == 'dot as set':
		return graph.get_graphviz_str()
	if what == 'source':
		return graph.get_graphviz_source(direction='RL', width=2, pad=1).source + graph.get_graphviz_source().source
	if what == 'tree':
		return graph.get_tree_str()
	if what == 'roots':
		return text_of([names(graph.roots), names(graph.absolute_roots), names(graph.leaves)])
	if what == 'relatives':
		return text_of([
			[n.name, names(graph.get_ancestors(n, distance=False)), names(graph.get_descendants(n.name, distance=False)), n.num_descendants]
			for n in graph.nodes
		])
	if what == 'distances':
		return text_of([
			[
				n.name, {d: names(group) for d, group in graph.get_ancestors(n).items()},
				{d: names(group) for d, group in graph.get_descendants(n).items()}
			]
			for n in graph.nodes
		])
	if what == 'loops':
		return text_of([
			names(graph.loop_nodes), [graph.is_node_in_loop(n) for n in graph.nodes], [edge.is_in_loop() for edge in graph.edges],
			[[a.is_in_loop_with(b) for b in graph.nodes if b is not a] for a in graph.nodes]
		])
	if what == 'content':
		return text_of(observe_fully(graph))
	if what == 'settings':
		return text_of([settings(graph), [edge.id for edge in graph.edges], list(graph.edges_dict)])
	if what == 'neighbours':
		return text_of([
			[
				n.name, names(n.children), names(n.parents), names(n.siblings), names(n.co_parents), [e.id for e in n.edges],
				[n.get_child_rank(parent) for parent in n.parents], n in graph, n.name in graph, n.index
			]
			for n in graph.nodes
		])
	if what == 'similar':
		return text_of([graph.is_similar_to(graph), graph.is_similar_to(Graph())])
	if what == 'subject':
		return text_of([[str(n), repr(n), n.get_tree_str()] for n in graph.nodes] + [str(e) for e in graph.edges])
	if what == 'copy':
		return text_of(observe_fully(graph.copy()))
	if what == 'pickle':
		return text_of(observe_fully(pickle.loads(pickle.dumps(graph))))
	if what == 'filter':
		return text_of([
			observe(graph.filter(nodes=[n.name], direction=direction)) for n in graph.nodes[:2] for direction in ('to', 'from')
		])
	if what == 'merge':
		return text_of(observe_fully(graph + graph))
	if what == 'graph of it':
		return text_of(observe_fully(Graph(graph)))
	if what == 'styles':
		return text_of([
			[s.get_graphviz_str() for s in graph.node_styles.values()], [s.get_graphviz_str() for s in graph.edge_styles.values()],
			[str(s.colour.hexadecimal) for s in graph.node_styles.values()],
			[n.get_graphviz_str() for n in graph.nodes], [e.get_graphviz_str() for e in graph.edges]
		])
	raise KeyError(what)


SHARED_QUESTIONS = QUESTIONS + ('dot as set', 'source', 'copy', 'pickle', 'filter', 'merge', 'graph of it', 'styles')


def play(program, materials=None):
	"""The transcript of a program; to be called with warnings switched off."""
	return Player(program, materials).play()


def quietly(function, errors=False):
	"""Calls function with warnings switched off; or, with errors, as errors: for the whole process, as the filters are not per thread."""
	with warnings.catch_warnings():
		warnings.simplefilter('ignore')
		if errors:
			warnings.simplefilter('error', UserWarning)
		return function()


def strictly(rng, program):
	"""The program under warnings as errors: some additions leave the case of something existing to them, some happen once more."""
	ops = []
	for op in program['ops']:
		if op['op'] in ('add', 'connect') and 'attrs' in op and rng.random() < 0.7:
			op = dict(op, attrs=dict(op['attrs'], policy='warn'), warnings='error')
		ops.append(op)
		if op['op'] in ('add', 'connect') and rng.random() < 0.3:
			ops.append(op)
	if ops and rng.random() < 0.5:
		again = [op for op in ops if op.get('warnings')]
		ops += rng.sample(again, min(2, len(again)))
	return dict(program, ops=ops)


# generation
def gen_extra(rng, config, model, shared):
	kind = rng.choice((
		'ask', 'ask', 'ask', 'render', 'render', 'copy', 'pickle', 'filter', 'merge', 'random', 'outline', 'lists', 'object', 'append',
		'append shared'
	))
	if kind == 'ask':
		return {'op': 'ask', 'what': rng.choice(QUESTIONS)}
	if kind == 'render':
		return {'op': 'render'} if len(model.edges) <= 9 else None
	if kind == 'copy':
		return {'op': 'copy', 'deep': rng.random() < 0.3, 'adopt': rng.random() < 0.4}
	if kind == 'pickle':
		return {'op': 'pickle', 'protocol': rng.choice((0, 2, 4, 5)), 'adopt': rng.random() < 0.4}
	if kind == 'filter':
		known = list(model.nodes)
		return {
			'op': 'filter', 'nodes': rng.sample(known, min(len(known), rng.choice((0, 1, 2)))),
			'direction': rng.choice(('to', 'from', 'to_and_from')), 'type': rng.choice(('include', 'exclude'))
		}
	if kind == 'merge':
		pool = config['names']
		nodes = [[name, plain_attributes(rng)] for name in rng.sample(pool, rng.randint(1, len(pool)))]
		edges = []
		for _ in range(rng.randint(0, 4)):
			edges.append([rng.choice(nodes)[0], rng.choice(nodes)[0], plain_attributes(rng)])
		# only few of these are loops
		edges = [edge for edge in edges if edge[0] != edge[1] or rng.random() < 0.2]
		return {
			'op': 'merge', 'nodes': nodes, 'edges': edges, 'function': rng.choice((None, 'first', 'pair')),
			'render': len(model.edges) <= 5 and rng.random() < 0.5
		}
	if kind == 'random':
		return {'op': 'random', 'arguments': random_arguments(rng)}
	if kind == 'outline':
		lines, depth = [], 0
		mark = rng.choice(('\t', '  ', '    '))
		for i in range(rng.randint(0, 6)):
			depth = rng.randint(0, depth + 1) if i else 0
			lines.append(mark * depth + f'line {i}')
		return {'op': 'outline', 'lines': lines, 'indent': rng.choice((None, mark))}
	if kind == 'lists':
		n = rng.randint(0, 4)
		return {
			'op': 'lists', 'start': [rng.choice('abc') for _ in range(n)], 'end': [rng.choice('abc') for _ in range(n)],
			'edge': [rng.choice(('x', None, 'y')) for _ in range(n)]
		}
	if kind == 'object':
		return {
			'op': 'object', 'edges': [[rng.randint(0, 5), rng.randint(0, 5)] for _ in range(rng.randint(1, 6))],
			'limit': rng.choice((None, 1, 2))
		}
	if kind == 'append':
		return g.append(rng, config, model)
	return dict(rng.choice(shared)) if shared else None


def plain_attributes(rng):
	result = {}
	if rng.random() < 0.5:
		result['label'] = rng.choice(g.LABELS)
	if rng.random() < 0.5:
		result['value'] = rng.choice((1, 2, 3))
	if rng.random() < 0.3:
		result['style'] = {'colour': rng.choice(g.COLOURS)}
	return result


def random_arguments(rng, seeded=True):
	result = {'num_nodes': rng.choice((0, 1, 2, 3, 5, 8))}
	if seeded:
		result['seed'] = rng.choice((0, 1, 42, -7, 123456789))
	for key, values in (
		('connection_probability', (0, 0.0, 0.1, 0.5, 0.9, 1.0, 1, 1.5, -1)), ('cycle', (True, False)), ('start_index', (0, 1, 10)),
		('strict', (True, False)), ('ordering', (True, False))
	):
		if rng.random() < 0.6:
			result[key] = rng.choice(values)
	return result


def gen_shared(rng, names, counts=(0, 1, 2), overwrite=False):
	"""Descriptions that several programs take in."""
	result = []
	for i in range(rng.choice(counts)):
		config = g.configuration(rng)
		config['names'] = names
		config['styles'] = 0.6
		config['overwrite'] = overwrite
		model = Model()
		op = g.append(rng, config, model)
		if not overwrite:
			op.pop('edge_styles', None)
		if op['nodes']:
			for _, attrs in op['nodes'] + [(None, edge[-1]) for edge in op['edges']]:
				if attrs.get('style') is not None and rng.random() < 0.6:
					attrs['style'].update({'as': 'shared', 'shared': i})
			result.append(dict(op, shared=i))
	return result


def gen_program(rng, names, shared, length, overwrite=None, share_styles=True):
	config = g.configuration(rng)
	config['names'] = names
	config['refuse'] = min(config['refuse'], 0.15)
	config['styles'] = rng.choice((0.0, 0.3, 0.6))
	if overwrite is not None:
		config['overwrite'] = overwrite
	model = Model(config['overwrite'])
	program = {'arguments': g.arguments(rng), 'overwrite': config['overwrite'], 'ops': []}
	while len(program['ops']) < length:
		if rng.random() < 0.45 and len(model.nodes) > 1 or (not model.nodes and shared and rng.random() < 0.3):
			op = gen_extra(rng, config, model, shared)
		else:
			op = g.next_op(rng, config, model)
			if op['op'] == 'connect' and len(model.edges) >= 9:
				continue
			if op.get('warnings') or op.get('attrs', {}).get('policy') == 'warn':
				continue
			if op['op'] in ('add', 'connect') and 'policy' not in op.get('attrs', {}):
				op = dict(op, attrs=dict(op['attrs'], policy='ignore'))
		if op is None:
			continue
		if share_styles:
			for style in styles_of(op):
				if rng.random() < 0.5:
					style.update({'as': 'shared', 'shared': 0})
		try:
			model.apply(op)
		except Refused:
			if op['op'] == 'append':
				continue
		except AttributeError:
			pass
		program['ops'].append(op)
	return program


def gen_focused(rng, names, shared, kind):
	"""A short program that asks one thing again and again."""
	config = g.configuration(rng)
	config['names'] = names
	config['styles'] = rng.choice((0.0, 0.4))
	config['loops'] = rng.choice((0.0, 0.0, 0.3))
	edges = rng.randint(1, 7)
	if kind in QUESTIONS and rng.random() < 0.5:
		config['loops'], edges = 1.0, rng.randint(4, 11)
	ops, model = g.grow(rng, config, rng.randint(2, len(names)), edges)
	program = {'arguments': g.arguments(rng, 0.2), 'overwrite': config['overwrite'], 'ops': ops}
	for op in ops:
		if op['op'] == 'connect':
			op['attrs']['policy'] = 'ignore'
	if kind in SHARED_QUESTIONS:
		program['ops'] += [{'op': 'ask', 'what': kind}] * rng.randint(1, 2)
		return program
	for _ in range(40):
		op = gen_extra(rng, config, model, shared)
		if op is not None and op['op'] == kind:
			program['ops'].append(op)
			if rng.random() < 0.5:
				break
	return program


def gen_sharing(rng, names, shared, arguments, overwrite):
	"""A short program on materials that others use too: it takes them in, adds to them, and renders."""
	config = g.configuration(rng)
	config['names'] = names
	config['overwrite'] = overwrite
	config['styles'] = rng.choice((0.0, 0.4))
	config['loops'] = 0.0
	model = Model(overwrite)
	program = {'arguments': dict(arguments), 'overwrite': overwrite, 'ops': []}

	def add(op):
		try:
			model.apply(op)
		except Refused:
			return
		program['ops'].append(op)

	for op in g.grow(rng, config, rng.randint(0, 3), rng.randint(0, 3))[0]:
		add(op)
	for _ in range(rng.randint(2, 6)):
		kind = rng.choice(('shared', 'shared', 'append', 'append', 'render', 'render', 'ask', 'add'))
		if kind == 'shared' and shared:
			add(dict(rng.choice(shared)))
		elif kind == 'append':
			add(g.append(rng, config, model))
		elif kind == 'render':
			program['ops'].append({'op': 'render'})
		elif kind == 'ask':
			program['ops'].append({'op': 'ask', 'what': rng.choice(('dot', 'settings', 'content'))})
		elif kind == 'add':
			add({'op': 'add', 'name': rng.choice(names), 'attrs': {'policy': 'ignore'}})
	program['ops'].append({'op': 'render'})
	for op in program['ops']:
		if op['op'] == 'connect':
			op['attrs']['policy'] = 'ignore'
	for style in [style for op in program['ops'] for style in styles_of(op)]:
		if rng.random() < 0.7:
			style.update({'as': 'shared', 'shared': 0})
	return program


def sharing_arguments(rng):
	result = g.arguments(rng, 0.3)
	if rng.random() < 0.7:
		result['node_style'] = rng.choice(({'shape': 'auto'}, {'shape': 'auto'}, {'text_size': 13}, {'shape': 'circle', 'colour': 'green'}))
	if rng.random() < 0.5:
		result['edge_style'] = rng.choice(({'line_width': 3}, {'colour': 'blue'}))
	if rng.random() < 0.4:
		result['colour_scheme'] = {'scheme': rng.choice(('pensieve2', 'pastel15'))}
		if rng.random() < 0.3:
			result['stylist'] = 'random'
	return result


KINDS = SHARED_QUESTIONS + ('render', 'render', 'random', 'outline', 'lists', 'object', 'append', 'copy', 'pickle', 'merge')


def styles_of(op):
	style = op.get('attrs', {}).get('style')
	if style is None and op.get('field') == 'style':
		style = op.get('to')
	return [style] if style is not None and 'bad' not in style else []
