"""C19: a style that the user gave shows in every later render, and nothing else takes it over."""
import colorsys
import copy
import pickle

from .. import gen as g
from ..callbacks import Plan
from ..core import Violation, check, expect_equal, short
from ..disk import Disk, empty
from ..dot import parse
from ..mon import BUDGET, STEPPER
from ..sut import colouration, Graph, NodeStyle, EdgeStyle
from ..world import call, must

ID = 'C19'
LEVEL = 'exploration'
RUNS = {'quick': 12000, 'thorough': 130000}
LISTS = [('history',)]
RULE = (
	'one evaluation = one to three graphs that use the same style objects and dictionaries, with a seeded history of additions, '
	'updates, removals, style changes (accepted and refused), described styles, appended graphs, copies, renders and renders '
	'that fail or are interrupted; after every render each node and edge must show exactly the settings that were given for it '
	'or for all, and everything else the look of its first complete render; non-trivial = something given was rendered at least '
	'twice; distinct = different traces'
)
TECHNIQUE = 'deterministic simulation: seeded histories of styling, editing and failing or interrupted renders over graphs that share style objects, against a model of what was given'
REAL = [
	'abstract._GraphWithoutDisplay', 'abstract.styling', 'abstract.Node', 'abstract.Edge', 'colouration', 'graphviz (Python package)'
]
STATES = 'looks of all nodes and edges at the end of a run'
STUB = ['layout program (simulated process)', 'failing file writes', 'label converters of the caller', 'delivery of interrupts']
EXCEPTIONS = {'keyboard': KeyboardInterrupt, 'memory': MemoryError}
STYLE = {'node': NodeStyle, 'edge': EdgeStyle}
# settings that are shown as they are, and colours
DIRECT = {
	'node': {'shape': 'shape', 'font': 'fontname', 'text_size': 'fontsize', 'shape_style': 'style'},
	'edge': {'font': 'fontname', 'text_size': 'fontsize', 'arrow_size': 'arrowsize', 'label_style': 'lblstyle', 'line_width': 'penwidth'}
}
COLOURS = {
	'node': {'fill_colour': 'fillcolor', 'border_colour': 'color', 'text_colour': 'fontcolor'},
	'edge': {'colour': 'color', 'text_colour': 'fontcolor'}
}
SETTINGS = {
	'node': {
		'shape': ('circle', 'ellipse', 'diamond'), 'font': ('courier', 'times'), 'text_size': (7, 14, 20), 'shape_style': ('filled', 'dashed'),
		'fill_colour': g.COLOURS, 'border_colour': g.COLOURS, 'text_colour': g.COLOURS, 'colour': g.COLOURS, 'opacity': (0.5, 1, 0),
		'lighter_fill': (True, False)
	},
	'edge': {
		'font': ('courier', 'times'), 'text_size': (7, 14), 'arrow_size': (0.7, 2), 'label_style': ('above',), 'line_width': (2, 3, 5),
		'text_colour': g.COLOURS, 'colour': g.COLOURS, 'opacity': (0.5, 1, 0)
	}
}


def settings(rng, kind, count, without=()):
	keys = [key for key in SETTINGS[kind] if key not in without]
	return {key: rng.choice(SETTINGS[kind][key]) for key in rng.sample(keys, count)}


def gen(rng, index, tier):
	names = rng.choice((list('abcdefg'), ['n1', 'n2', 'hub', 'leaf', 'x1'], ['one', 'two', 'three', 'four']))
	count = rng.choice((1, 2, 2))
	trace = {
		'materials': {kind: [settings(rng, kind, rng.choice((0, 1, 2, 3))) for _ in range(3)] for kind in ('node', 'edge')},
		'graphs': [], 'history': [], 'exception': rng.choice(sorted(EXCEPTIONS))
	}
	# what a description gives for a node has the same keys every time
	described = {name: rng.sample(('shape', 'font', 'text_size', 'fill_colour', 'text_colour'), rng.choice((1, 2))) for name in names}
	for _ in range(count):
		graph = {'overwrite': rng.random() < 0.4, 'arguments': {'stylist': rng.choice(('pensieve', 'random'))}}
		for kind in ('node', 'edge'):
			if rng.random() < 0.35:
				graph['arguments'][kind + '_style'] = settings(rng, kind, rng.choice((1, 2)), without=('opacity',))
		if rng.random() < 0.4:
			graph['arguments'][rng.choice(('node', 'node', 'edge')) + '_label_converter'] = rng.choice(('upper', 'bracket'))
		trace['graphs'].append(graph)
	style_rate, total = rng.choice((0.3, 0.6)), count
	present = [[] for _ in range(count)]
	edges = [[] for _ in range(count)]

	def style(kind):
		if rng.random() >= style_rate:
			return None
		return {'material': rng.randrange(3), 'as': rng.choice(('object', 'object', 'dictionary', 'copy'))}

	for _ in range(rng.choice((8, 15, 25, 40))):
		i = rng.randrange(total)
		kind = rng.choices(
			('add', 'connect', 'set', 'value', 'remove', 'disconnect', 'render', 'fail', 'copy', 'move', 'describe'),
			(6, 6, 4, 1, 1, 1, 5, 3, 0.7, 0.7, 1)
		)[0]
		op = None
		if kind == 'add':
			op = {'op': 'add', 'name': rng.choice(names), 'style': style('node')}
			if op['name'] not in present[i]:
				present[i].append(op['name'])
		elif kind == 'connect' and present[i] and len(edges[i]) < 10:
			start, end = rng.choice(present[i]), rng.choice(present[i])
			if start == end and rng.random() < 0.8:
				continue
			op = {'op': 'connect', 'edge': [start, end, rng.choice((None, None, 'k'))], 'style': style('edge')}
			if rng.random() < 0.2:
				op['value'] = rng.choice((1, 2, 'v'))
			if op['edge'] not in edges[i]:
				edges[i].append(op['edge'])
		elif kind in ('set', 'value') and present[i]:
			op = {'op': kind, 'which': rng.choice(('node', 'edge')), 'at': rng.randint(0, 9)}
			if kind == 'set':
				op['style'] = {'material': rng.randrange(3), 'as': rng.choice(('object', 'object', 'dictionary', 'copy'))}
			else:
				op['to'] = rng.choice((1, 3, 'w'))
		elif kind == 'remove' and present[i]:
			name = rng.choice(present[i])
			present[i].remove(name)
			edges[i] = [edge for edge in edges[i] if name not in edge[:2]]
			op = {'op': 'remove', 'name': name}
		elif kind == 'disconnect' and edges[i]:
			edge = rng.choice(edges[i])
			edges[i].remove(edge)
			op = {'op': 'disconnect', 'edge': edge}
		elif kind == 'render':
			op = {'op': 'render', 'how': rng.choice(('render', 'render', 'save', 'svg'))}
		elif kind == 'fail':
			op = {'op': 'fail', 'how': rng.choice(('converter', 'interrupt', 'interrupt', 'layout')), 'at': rng.randint(1, 6), 'share': rng.randint(0, 999)}
		elif kind == 'copy' and total < 3:
			op = {'op': 'copy', 'how': rng.choice(('copy', 'pickle', 'deepcopy'))}
			present.append(list(present[i]))
			edges.append(list(edges[i]))
			total += 1
		elif kind == 'move' and total > 1:
			j = rng.choice([j for j in range(total) if j != i])
			if set(present[i]) & set(present[j]) or len(present[i]) + len(present[j]) > 8 or len(edges[i]) + len(edges[j]) > 10:
				continue
			op = {'op': 'move', 'from': j}
			present[i].extend(present[j])
			edges[i].extend(list(edge) for edge in edges[j])
		elif kind == 'describe':
			op = {'op': 'describe', 'styles': {}}
			for name in rng.sample(names, rng.choice((1, 2))):
				op['styles'][name] = {key: rng.choice(SETTINGS['node'][key]) for key in described[name]}
			if rng.random() < 0.4:
				op['colours'] = {rng.choice(names): rng.choice(g.COLOURS)}
			if present[i] and len(edges[i]) < 10 and rng.random() < 0.5:
				edge = [rng.choice(present[i]), rng.choice(present[i]), rng.choice((None, 'k', 'd'))]
				if edge not in edges[i]:
					edges[i].append(edge)
					op['edge'] = edge
					if rng.random() < 0.6:
						op['edge_style'] = settings(rng, 'edge', rng.choice((1, 2, 3)))
					if rng.random() < 0.5:
						op['edge_colour'] = rng.choice(g.COLOURS)
		if op is not None:
			op['graph'] = i
			trace['history'].append(op)
	trace['history'].append({'op': 'render', 'how': 'render', 'graph': rng.randrange(total)})
	return trace


def attributes(style_text):
	found = parse('digraph {"x" [' + style_text + ']}')
	return found['nodes'][0][1]


class Thing:
	"""What is known about the look of a node or an edge."""

	def __init__(self, kind):
		self.kind = kind
		self.given = None  # the settings given last
		self.look = None  # its DOT attributes, as far as known
		self.opacity = None
		self.lighter = True

	def clone(self):
		result = Thing(self.kind)
		result.given, result.look = self.given, dict(self.look) if self.look else None
		result.opacity, result.lighter = self.opacity, self.lighter
		return result


class Side:
	def __init__(self, graph, spec):
		self.graph = graph
		self.overwrite = spec['overwrite']
		self.arguments = spec['arguments']
		self.overall = {kind: spec['arguments'].get(kind + '_style') for kind in ('node', 'edge')}
		self.named = {}
		self.colours = {}
		self.edge_styles = {}
		self.edge_colours = {}
		self.nodes = {}
		self.edges = {}
		self.dirty = False

	def things(self):
		return [('node', name, thing) for name, thing in self.nodes.items()] + [('edge', key, thing) for key, thing in self.edges.items()]

	def item(self, kind, key):
		return self.graph.nodes_dict[key] if kind == 'node' else self.graph.edges_dict[key]


def colours_shown(kind, spec, found):
	"""Colours that are given show as they are; the others follow, lighter or darker."""
	opacity = spec.get('opacity', 1 if kind == 'edge' else None)
	if kind == 'node':
		expect_equal(found.get('opacity'), None if opacity is None else str(opacity), 'wrong-look', f'a style with {spec}: opacity')
	for name, attribute in COLOURS[kind].items():
		if name in spec:
			expect_equal(
				found.get(attribute), colouration.Colour(obj=spec[name]).get_hexadecimal(opacity=opacity), 'wrong-look', f'a style with {spec}: {name}'
			)
	if kind == 'edge':
		if 'text_colour' not in spec:
			expect_equal(found.get('fontcolor'), found.get('color'), 'wrong-look', f'a style with {spec}: colour of the text')
		return
	if 'colour' in spec:
		lightness = colorsys.rgb_to_hls(*colouration.Colour(obj=spec['colour']).rgb)[1]
		for name, sign in (('fill_colour', 1), ('border_colour', -1)):
			if name not in spec:
				shade = found.get(COLOURS[kind][name])
				difference = colorsys.rgb_to_hls(*(int(shade[i:i + 2], 16) / 255 for i in (1, 3, 5)))[1] - lightness
				if not spec.get('lighter_fill', True):
					sign = -sign
				check(
					difference * sign > 0.01 or not 0.02 < lightness < 0.98, 'wrong-look',
					f'a style with {spec}: {name} is {shade}, which is not {"lighter" if sign > 0 else "darker"} than {spec["colour"]}'
				)


class Simulation:
	def __init__(self, trace, ctx):
		self.trace, self.ctx = trace, ctx
		self.shown = {}
		for kind in ('node', 'edge'):
			for spec in trace['materials'][kind] + [graph['arguments'].get(kind + '_style') for graph in trace['graphs']]:
				if spec is not None:
					self.fresh(kind, spec)
		self.objects = {kind: [STYLE[kind](**spec) for spec in trace['materials'][kind]] for kind in ('node', 'edge')}
		self.dictionaries = {kind: [dict(spec) for spec in trace['materials'][kind]] for kind in ('node', 'edge')}
		self.overall = []
		self.sides = []
		self.tables = []
		self.again = 0
		for spec in trace['graphs']:
			arguments = dict(spec['arguments'])
			for key in ('node_label_converter', 'edge_label_converter'):
				if key in arguments:
					from ..callbacks import CONVERTERS
					arguments[key] = CONVERTERS[arguments[key]]
			for key in ('node_style', 'edge_style'):
				if key in arguments:
					arguments[key] = dict(arguments[key])
					self.overall.append((arguments[key], dict(arguments[key])))
			graph = must(lambda: Graph(style_overwrite_allowed=spec['overwrite'], **arguments), 'Graph()')
			self.sides.append(Side(graph, spec))

	def fresh(self, kind, spec):
		"""The DOT attributes of a style with these settings."""
		key = (kind, tuple(sorted((k, repr(v)) for k, v in spec.items())))
		if key not in self.shown:
			found = attributes(STYLE[kind](**spec).get_graphviz_str())
			for name, attribute in DIRECT[kind].items():
				if name in spec:
					expect_equal(found.get(attribute), str(spec[name]), 'wrong-look', f'a style with {spec}: {name}')
			colours_shown(kind, spec, found)
			self.shown[key] = found
		return dict(self.shown[key])

	def colour(self, kind, setting, value, opacity):
		spec = {setting: value}
		if opacity is not None:
			spec['opacity'] = opacity
		return self.fresh(kind, spec)[COLOURS[kind][setting]]

	def overlay(self, thing, extra):
		for key, value in extra.items():
			if key in DIRECT[thing.kind]:
				thing.look[DIRECT[thing.kind][key]] = str(value)
			elif key in COLOURS[thing.kind]:
				thing.look[COLOURS[thing.kind][key]] = self.colour(thing.kind, key, value, thing.opacity)

	def give(self, thing, spec):
		thing.given = spec
		thing.look = self.fresh(thing.kind, spec)
		thing.opacity = spec.get('opacity', 1 if thing.kind == 'edge' else None)
		thing.lighter = spec.get('lighter_fill', True)

	def materialise(self, kind, style):
		if style is None:
			return None
		n = style['material']
		if style['as'] == 'object':
			return self.objects[kind][n]
		if style['as'] == 'dictionary':
			return self.dictionaries[kind][n]
		return STYLE[kind](**self.trace['materials'][kind][n])

	def untouched(self, what):
		"""What the caller handed over is still what it was."""
		for kind in ('node', 'edge'):
			for spec, style, dictionary in zip(self.trace['materials'][kind], self.objects[kind], self.dictionaries[kind]):
				expect_equal(attributes(style.get_graphviz_str()), self.fresh(kind, spec), 'caller-style-changed', f'{what}: a style object of the caller')
				expect_equal(dictionary, spec, 'caller-style-changed', f'{what}: a style dictionary of the caller')
		for dictionary, before in self.overall + self.tables:
			expect_equal(dictionary, before, 'caller-style-changed', f'{what}: a dictionary of the caller')

	# the edits
	def styled(self, side, thing):
		"""True, False, or None if a render that failed may or may not have given a style."""
		if thing.look is not None:
			return True
		return None if side.dirty else False

	def update(self, side, kind, key, style, function, what):
		"""A style for something that exists."""
		thing = (side.nodes if kind == 'node' else side.edges)[key]
		refused = not side.overwrite and self.styled(side, thing)
		if refused is None:
			return
		result, error = call(function)
		if refused:
			check(error is not None, 'accepted-invalid-edit', f'{what}: a style took the place of another')
			self.ctx.fault('refused: style overwrite')
		else:
			if error is not None:
				raise Violation('refused-valid-edit', f'{what} raised {type(error).__name__}: {short(str(error), 200)}')
			self.give(thing, self.trace['materials'][kind][style['material']])

	def on_add(self, side, op, what):
		name, style = op['name'], op['style']
		arguments = {} if style is None else {'style': self.materialise('node', style)}
		if name not in side.nodes:
			if len(side.nodes) >= 8:
				return
			must(lambda: side.graph.add_node(name=name, **arguments), what)
			side.nodes[name] = Thing('node')
			if style is not None:
				self.give(side.nodes[name], self.trace['materials']['node'][style['material']])
		elif style is not None:
			self.update(side, 'node', name, style, lambda: side.graph.add_node(name=name, if_node_exists='ignore', **arguments), what)

	def on_connect(self, side, op, what):
		key, style = tuple(op['edge']), op['style']
		if key[0] not in side.nodes or key[1] not in side.nodes:
			return
		arguments = {} if style is None else {'style': self.materialise('edge', style)}
		connect = lambda: side.graph.connect(start=key[0], end=key[1], id=key[2], if_edge_exists='ignore', **arguments)
		if key not in side.edges:
			if len(side.edges) >= 10:
				return
			if 'value' in op:
				arguments['value'] = op['value']
			must(connect, what)
			side.edges[key] = Thing('edge')
			if style is not None:
				self.give(side.edges[key], self.trace['materials']['edge'][style['material']])
		elif style is not None:
			self.update(side, 'edge', key, style, connect, what)

	def pick(self, side, op):
		keys = list(side.nodes if op['which'] == 'node' else side.edges)
		return keys[op['at'] % len(keys)] if keys else None

	def on_set(self, side, op, what):
		key = self.pick(side, op)
		if key is None:
			return
		item, style = side.item(op['which'], key), self.materialise(op['which'], op['style'])
		self.update(side, op['which'], key, op['style'], lambda: setattr(item, 'style', style), what)

	def on_value(self, side, op, what):
		key = self.pick(side, op)
		if key is not None:
			must(lambda: setattr(side.item(op['which'], key), 'value', op['to']), what)

	def on_remove(self, side, op, what):
		if op['name'] in side.nodes:
			must(lambda: side.graph.remove_node(node=op['name']), what)
			del side.nodes[op['name']]
			for key in [key for key in side.edges if op['name'] in key[:2]]:
				del side.edges[key]

	def on_disconnect(self, side, op, what):
		key = tuple(op['edge'])
		if key in side.edges:
			must(lambda: side.graph.disconnect(edge=side.graph.edges_dict[key]), what)
			del side.edges[key]

	def on_describe(self, side, op, what):
		if side.dirty:
			return
		description = {'nodes': [], 'edges': [], 'node_styles': copy.deepcopy(op['styles'])}
		side.named.update(op['styles'])
		if 'colours' in op and side.overwrite:
			description['node_colours'] = dict(op['colours'])
			side.colours.update(op['colours'])
		key = tuple(op.get('edge') or ())
		if key and key not in side.edges and key[0] in side.nodes and key[1] in side.nodes and len(side.edges) < 10:
			side.edges[key] = Thing('edge')
			description['edges'] = [[key[0], key[1], {'id': key[2]}]]
			if 'edge_style' in op and side.overwrite:
				side.edge_styles[key] = op['edge_style']
				description['edge_styles'] = {key: dict(op['edge_style'])}
			if 'edge_colour' in op and side.overwrite:
				side.edge_colours[key] = op['edge_colour']
				description['edge_colours'] = {key: op['edge_colour']}
		self.tables.append((description, copy.deepcopy(description)))
		must(lambda: side.graph.append(description), what)
		self.ctx.count('op:described styles')

	def on_copy(self, side, op, what):
		if len(self.sides) >= 3:
			return
		function = {
			'copy': side.graph.copy, 'deepcopy': lambda: copy.deepcopy(side.graph), 'pickle': lambda: pickle.loads(pickle.dumps(side.graph))
		}[op['how']]
		graph = must(function, what)
		twin = Side(graph, {'overwrite': side.overwrite, 'arguments': side.arguments})
		twin.overall, twin.dirty = dict(side.overall), side.dirty
		for table in ('named', 'colours', 'edge_styles', 'edge_colours'):
			setattr(twin, table, dict(getattr(side, table)))
		twin.nodes = {name: thing.clone() for name, thing in side.nodes.items()}
		twin.edges = {key: thing.clone() for key, thing in side.edges.items()}
		self.sides.append(twin)
		self.ctx.count('op:copy')

	def on_move(self, side, op, what):
		if op['from'] >= len(self.sides):
			return
		source = self.sides[op['from']]
		if source is side or source.dirty or side.dirty or set(source.nodes) & set(side.nodes):
			return
		if len(source.nodes) + len(side.nodes) > 8 or len(source.edges) + len(side.edges) > 10:
			return
		if not side.overwrite and (source.colours or source.edge_styles or source.edge_colours):
			return
		must(lambda: side.graph.append(source.graph), what)
		side.overall = dict(source.overall)
		side.named.update(source.named)
		side.colours.update(source.colours)
		# what was described for edges that are gone is not handed on
		side.edge_styles.update({key: style for key, style in source.edge_styles.items() if key in source.edges})
		side.edge_colours.update({key: colour for key, colour in source.edge_colours.items() if key in source.edges})
		side.nodes.update({name: thing.clone() for name, thing in source.nodes.items()})
		side.edges.update({key: thing.clone() for key, thing in source.edges.items()})
		self.ctx.count('op:appended graph')

	# the renders
	def on_render(self, side, op, what):
		if op['how'] == 'render':
			text = must(lambda: side.graph.render(view=False), what).source
		else:
			empty(self.ctx.scratch)
			with Disk(self.ctx.scratch, self.ctx) as disk:
				if op['how'] == 'save':
					must(lambda: side.graph.render(path='picture.svg', view=False), what)
				else:
					must(lambda: side.graph.get_svg(), what)
				disk.verify_contained(what)
			text = must(lambda: side.graph.get_graphviz_str(), what)
		self.complete(side)
		self.verify(side, text, what)
		self.ctx.count('renders')

	def on_fail(self, side, op, what):
		if op['how'] == 'converter':
			Plan.reset(fail_at=op['at'])
			_, error = call(lambda: side.graph.render(view=False))
			fired = Plan.fired
			Plan.reset()
			name = 'label converter failed'
		elif op['how'] == 'layout':
			empty(self.ctx.scratch)
			with Disk(self.ctx.scratch, self.ctx) as disk:
				disk.plan({'layout': [{'kind': 'exit', 'share': 0}]})
				_, error = call(lambda: side.graph.render(path='picture.svg', view=False))
				fired = bool(disk.hits)
				disk.verify_contained(what)
			name = None
		else:
			STEPPER.fine()
			trial = must(side.graph.copy, 'copy')
			_, error = STEPPER.run(lambda: trial.render(view=False), limit=BUDGET)
			if error is not None:
				raise Violation('unexpected-error', f'{what} raised {type(error).__name__}: {error}')
			exception = EXCEPTIONS[self.trace['exception']]
			_, error = STEPPER.run(
				lambda: side.graph.render(view=False), limit=BUDGET, target=1 + STEPPER.count * op['share'] // 1000,
				exception=exception('injected by the simulator')
			)
			fired = STEPPER.fired
			STEPPER.coarse()
			if fired:
				self.ctx.points.add(fired)
			name = f'{exception.__name__} in a render'
		if not fired:
			if error is not None:
				raise Violation('unexpected-error', f'{what} raised {type(error).__name__}: {error}')
			self.complete(side)
			self.verify(side, must(lambda: side.graph.render(view=False), what).source, what)
			return
		check(error is not None or op['how'] == 'interrupt', 'error-lost', f'{what}: returned')
		if name:
			self.ctx.fault(name)
		side.dirty = True

	def complete(self, side):
		"""What a render makes of the looks."""
		side.dirty = False
		for kind, key, thing in side.things():
			overall = side.overall[kind]
			if overall is not None and (side.overwrite or thing.look is None):
				self.give(thing, overall)
			seen = None
			if thing.look is None:
				# chosen by the library: to be seen in the render, kept from then on
				item = side.item(kind, key)
				check(item.has_style(), 'wrong-look', f'{kind} {key} was not styled by a render')
				thing.look = seen = attributes(item.style.get_graphviz_str())
				seen = dict(seen)
				thing.opacity = 1
				if kind == 'node':
					# handed down by its parents, perhaps
					thing.opacity = {None: None, '0': 0, '1': 1}.get(thing.look.get('opacity'), 0.5)
					thing.lighter = None
			self.described(side, kind, key, thing)
			if overall is not None:
				self.overlay(thing, overall)
			if seen is not None:
				expect_equal(seen, thing.look, 'wrong-look', f'{kind} {key}, with what was described')
			if thing.given is not None:
				self.again += 1

	def described(self, side, kind, key, thing):
		"""What descriptions gave for this node or edge."""
		if kind == 'node':
			if key in side.named:
				self.overlay(thing, side.named[key])
			if key in side.colours:
				spec = {'colour': side.colours[key]}
				if thing.opacity is not None:
					spec['opacity'] = thing.opacity
				if thing.lighter is None:
					# to be seen now as well
					dark = self.fresh('node', dict(spec, lighter_fill=False))
					item = side.item(kind, key)
					thing.lighter = attributes(item.style.get_graphviz_str())['fillcolor'] != dark['fillcolor']
				spec['lighter_fill'] = thing.lighter
				shown = self.fresh('node', spec)
				thing.look.update({name: shown[name] for name in ('color', 'fillcolor', 'fontcolor')})
		else:
			if key in side.edge_styles:
				self.give(thing, side.edge_styles[key])
			if key in side.edge_colours:
				shown = self.fresh('edge', {'colour': side.edge_colours[key], 'opacity': thing.opacity})
				thing.look.update({name: shown[name] for name in ('color', 'fontcolor')})

	def verify(self, side, text, what):
		found = parse(text)
		nodes = {str(name): thing.look for name, thing in side.nodes.items()}
		expect_equal([name for name, _ in found['nodes']], list(nodes), 'wrong-look', f'{what}: nodes')
		for name, attrs in found['nodes']:
			attrs = {key: value for key, value in attrs.items() if key not in ('label', 'tooltip')}
			expect_equal(attrs, nodes[name], 'wrong-look', f'{what}: look of node {name!r}')
		expected = sorted((f'{key[0]}->{key[1]}', sorted(thing.look.items())) for key, thing in side.edges.items())
		got = sorted(
			(f'{start}->{end}', sorted((key, value) for key, value in attrs.items() if key not in ('label', 'tooltip')))
			for start, end, attrs in found['edges']
		)
		expect_equal(got, expected, 'wrong-look', f'{what}: looks of edges')

	def settled(self, what):
		"""Between renders everything that was given, or drawn, is seen through the objects as well."""
		for i, side in enumerate(self.sides):
			if side.dirty:
				continue
			for kind, key, thing in side.things():
				item = side.item(kind, key)
				check(item.has_style() == (thing.look is not None), 'wrong-look', f'{what}: graph {i}: has_style of {kind} {key}')
				if thing.look is not None:
					expect_equal(attributes(item.style.get_graphviz_str()), thing.look, 'wrong-look', f'{what}: graph {i}: {kind} {key}')


def run(trace, ctx):
	Plan.reset()
	simulation = Simulation(trace, ctx)
	for i, op in enumerate(trace['history']):
		if op['graph'] >= len(simulation.sides):
			continue
		side = simulation.sides[op['graph']]
		what = f'call {i} {op}'
		getattr(simulation, 'on_' + op['op'])(side, op, what)
		must(lambda: simulation.untouched(what), what)
		must(lambda: simulation.settled(what), what)
		ctx.log(what)
	ctx.nontrivial = simulation.again >= 2
	for i, side in enumerate(simulation.sides):
		simulation.on_render(side, {'how': 'render'}, f'the last render of graph {i}')
		must(lambda: simulation.settled('at the end'), 'at the end')
		ctx.state([[key, sorted(thing.look.items())] for _, key, thing in side.things()])
	ctx.log('end', repr([[side.graph.get_graphviz_str()] for side in simulation.sides]))
