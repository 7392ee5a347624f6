"""C16: the colours that the library chooses spread over the scheme and are handed down along the edges."""
import base64
import colorsys
import copy
import pickle

from .. import gen as g
from ..callbacks import CONVERTERS, Plan
from ..child import Helpers
from ..core import Violation, check, expect_equal, short
from ..disk import Disk, empty
from ..dot import parse
from ..mon import BUDGET, STEPPER
from ..sched import Scheduler, gen_plan, resolve
from ..sut import Graph, colouration
from ..world import call, must

ID = 'C16'
LEVEL = 'exploration'
RUNS = {'quick': 12000, 'thorough': 130000}
LISTS = [('history',), ('history', '*', 'plan')]
HASH_SEEDS = (23,)
RULE = (
	'one evaluation = one to three graphs (some share a scheme object) with a seeded history of additions (some with a colour of their '
	'own), links, removals, renders, renders that fail or are interrupted, copies, filters, snapshots that are rendered in another '
	'process, and renders in several threads; after every render the colour of each node and edge is compared with a model of the '
	'colours, and the attributes drawn with the colour; non-trivial = a colour was handed down; distinct = different traces'
)
TECHNIQUE = 'deterministic simulation: seeded histories of edits, failing, interrupted and concurrent renders, against a reference model of the colours (own arithmetic)'
REAL = [
	'abstract._GraphWithoutDisplay', 'abstract.styling', 'abstract.Node', 'abstract.Edge', 'colouration', 'graphviz (Python package)',
	'second process with another hash seed', 'threads of the operating system (one at a time)'
]
STATES = 'colours of all nodes at the end of a run'
STUB = ['layout program (simulated process)', 'label converters of the caller', 'delivery of interrupts', 'thread scheduler']
Colour, Scheme = colouration.Colour, colouration.Scheme
EXCEPTIONS = {'keyboard': KeyboardInterrupt, 'memory': MemoryError}
SCHEMES = (None, None, 'pastel13', 'set14', 'paired3', 'set25', 'pensieve', 'dark26', 'greys3')
VALUES = (None, None, None, 1, 2, 0.5, 'v', 3)
MOST_NODES, MOST_EDGES = 9, 10
NEAR = 0.004  # of a channel
_schemes = {}


def start_helpers(config):
	return Helpers(HASH_SEEDS)


def gen(rng, index, tier):
	names = rng.choice((list('abcdefghi'), ['n1', 'n2', 'hub', 'leaf', 'x1', 'n10', 'mid', 'B', 'zz'], list('ihgfedcba'), [9, 1, 8, 2, 7, 3, 6, 4, 5]))
	share = rng.random() < 0.2
	count = 2 if share else rng.choice((1, 1, 2))
	scheme = rng.choice(SCHEMES[2:])
	trace = {'share': scheme if share else None, 'graphs': [], 'history': [], 'exception': rng.choice(sorted(EXCEPTIONS))}
	for _ in range(count):
		graph = {'scheme': rng.choice(SCHEMES), 'stylist': rng.choice(('pensieve', 'pensieve', 'pensieve', 'random'))}
		if rng.random() < 0.3:
			graph['converter'] = rng.choice(('upper', 'bracket'))
		trace['graphs'].append(graph)
	total = count
	present = [[] for _ in range(3)]
	given = rng.choice((0.0, 0.2, 0.4))
	siblings = rng.choice((0.0, 0.0, 0.5))
	backwards = rng.choice((0.0, 0.05, 0.3))
	kinds, weights = zip(*{
		'add': 7, 'connect': 8, 'remove': 0.6, 'disconnect': 0.6, 'render': rng.choice((0.5, 2, 4)), 'fail': rng.choice((0.3, 1.5)),
		'copy': 0.4, 'threads': 0.3, 'child': 0.2
	}.items())
	for _ in range(rng.choice((8, 15, 25, 35))):
		i = rng.randrange(total)
		kind = rng.choices(kinds, weights)[0]
		op = {'op': kind, 'graph': i}
		if kind == 'add' or (kind == 'connect' and len(present[i]) < 2):
			op['op'] = 'add'
			op['name'] = rng.choice([name for name in names if name not in present[i]] or names)
			if op['name'] not in present[i]:
				present[i].append(op['name'])
			if rng.random() < given:
				op['colour'] = rng.choice(g.COLOURS)
		elif kind == 'connect':
			start, end = rng.sample(range(len(present[i])), 2) if rng.random() < 0.97 else [rng.randrange(len(present[i]))] * 2
			if start > end and rng.random() >= backwards:
				start, end = end, start
			if rng.random() < siblings:
				start = rng.randrange(2)
			op['edge'] = [present[i][start], present[i][end], rng.choice((None, None, None, 'k'))]
			op['value'] = rng.choice(VALUES)
		elif kind == 'remove':
			op['name'] = rng.choice(present[i] or names)
			if op['name'] in present[i]:
				present[i].remove(op['name'])
		elif kind == 'disconnect':
			op['at'] = rng.randint(0, 9)
		elif kind == 'render':
			op['how'] = rng.choice(('render', 'render', 'save', 'svg'))
		elif kind == 'fail':
			op['how'] = rng.choice(('converter', 'interrupt', 'interrupt', 'layout'))
			op['at'], op['share'] = rng.randint(1, 5), rng.randint(0, 999)
		elif kind == 'copy':
			if total >= 3 or share or not present[i]:
				continue
			op['how'] = rng.choice(('copy', 'deepcopy', 'pickle', 'filter'))
			op['name'], op['direction'] = rng.choice(present[i] or names), rng.choice(('to', 'from', 'to_and_from'))
			present[total] = list(present[i])
			total += 1
		elif kind == 'threads':
			op['graphs'] = [rng.randrange(total) for _ in range(3)]
			op['plan'] = gen_plan(rng)
		trace['history'].append(op)
	for i in range(total):
		trace['history'].append({'op': 'render', 'graph': i, 'how': 'render'})
	return trace


# arithmetic of colours
def clip(x):
	return min(1.0, max(0.0, x))


def changed(rgb, hue=0.0, saturation=1.0, lightness=None):
	"""A colour with another hue (added), saturation (a share of it) or lightness (a function)."""
	h, l, s = colorsys.rgb_to_hls(*rgb)
	if lightness is not None:
		l = clip(lightness(l))
	return tuple(clip(channel) for channel in colorsys.hls_to_rgb((h + hue) % 1.0, l, clip(s * saturation)))


def spread(rank, count):
	"""Where a child stands among its siblings, from -1 to 1; the middle is left out if their number is even."""
	if count == 1:
		return 0.0
	half = count // 2
	steps = [x / half for x in range(-half, half + 1) if x or count % 2]
	return steps[rank]


def scheme_colours(name):
	if name not in _schemes:
		distinct = {}
		for colour in Scheme(name=name or 'pensieve2').colours:
			distinct.setdefault(colour.hexadecimal, tuple(colour.rgb))
		_schemes[name] = list(distinct.values())
	return _schemes[name]


def near(found, expected):
	return all(abs(a - b) <= NEAR for a, b in zip(found, expected))


class Side:
	def __init__(self, graph, scheme, stylist):
		self.graph, self.scheme, self.stylist = graph, scheme, stylist
		self.nodes = {}  # name: colour, or None
		self.edges = {}  # (start, end, id): [colour or None, value, size of the arrow]

	def twin(self, graph):
		result = Side(graph, self.scheme, self.stylist)
		result.nodes = dict(self.nodes)
		result.edges = {key: list(edge) for key, edge in self.edges.items()}
		return result

	# the shape of the graph
	def parents(self, name):
		return [start for start, end, _ in self.edges if end == name]

	def children(self, name):
		return [end for start, end, _ in self.edges if start == name]

	def above(self, name):
		found, frontier = set(), [name]
		while frontier:
			for parent in self.parents(frontier.pop()):
				if parent not in found:
					found.add(parent)
					frontier.append(parent)
		return found

	def chosen(self):
		"""The colours after a render: {name: colour}, {edge: colour}; None in the place of those that only the law of even use tells."""
		nodes = dict(self.nodes)
		above = {name: self.above(name) for name in nodes}
		loop = {name for name in nodes if name in above[name]}
		if self.stylist == 'pensieve':
			top = {name for name in nodes if name in loop or all(parent in loop for parent in self.parents(name))}
			begin = {name for name in nodes if all(parent in loop for parent in self.parents(name))}
			colours, used = scheme_colours(self.scheme), 0
			for name in nodes:
				if nodes[name] is None and name in top:
					nodes[name] = colours[used % len(colours)]
					used += 1
			order = list(nodes)
			known = {}

			def inherited(name, divergence):
				if name in begin:
					return nodes[name], 1.0
				if (name, divergence) in known:
					return known[name, divergence]
				parents = self.parents(name)
				if len(parents) == 1:
					colour, weight = inherited(parents[0], divergence)
					among = sorted(self.children(parents[0]), key=order.index)
					result = changed(colour, hue=divergence * spread(among.index(name), len(among)), saturation=0.75), weight
				else:
					mixed = [
						inherited(parent, 0.0) for parent in parents if not (name in above[parent] and parent in above[name])
					]
					weight = sum(w for _, w in mixed)
					result = changed([sum(c[i] * w for c, w in mixed) / weight for i in range(3)], saturation=0.95), weight
				known[name, divergence] = result
				return result

			for name in nodes:
				if nodes[name] is None:
					nodes[name] = inherited(name, 0.05)[0]
		return nodes

	def edge_colour(self, key, nodes):
		colour = nodes[key[0]]
		return None if colour is None else changed(colour, lightness=lambda l: l - l ** 0.5 * 0.1)


class Simulation:
	def __init__(self, trace, ctx):
		self.trace, self.ctx = trace, ctx
		self.sides = []
		self.handed = 0
		shared = Scheme(name=trace['share']) if trace['share'] else None
		for spec in trace['graphs']:
			arguments = {'stylist': spec['stylist']}
			scheme = spec['scheme']
			if shared is not None:
				arguments['colour_scheme'], scheme = shared, trace['share']
			elif scheme is not None:
				arguments['colour_scheme'] = scheme
			if 'converter' in spec:
				arguments['node_label_converter'] = CONVERTERS[spec['converter']]
			self.sides.append(Side(must(lambda: Graph(**arguments), 'Graph()'), scheme, spec['stylist']))

	# the edits
	def on_add(self, side, op, what):
		if op['name'] in side.nodes or len(side.nodes) >= MOST_NODES:
			return
		arguments = {'style': {'colour': op['colour']}} if 'colour' in op else {}
		must(lambda: side.graph.add_node(name=op['name'], **arguments), what)
		side.nodes[op['name']] = tuple(Colour(obj=op['colour']).rgb) if 'colour' in op else None

	def on_connect(self, side, op, what):
		start, end, id = key = tuple(op['edge'])
		if start in side.nodes and end in side.nodes and key not in side.edges and len(side.edges) < MOST_EDGES:
			must(lambda: side.graph.connect(start=start, end=end, id=id, value=op['value']), what)
			side.edges[key] = [None, op['value'], None]

	def on_remove(self, side, op, what):
		if op['name'] in side.nodes:
			must(lambda: side.graph.remove_node(node=op['name']), what)
			del side.nodes[op['name']]
			for key in [key for key in side.edges if op['name'] in key[:2]]:
				del side.edges[key]

	def on_disconnect(self, side, op, what):
		if side.edges:
			key = list(side.edges)[op['at'] % len(side.edges)]
			must(lambda: side.graph.disconnect(edge=side.graph.edges_dict[key]), what)
			del side.edges[key]

	def on_copy(self, side, op, what):
		if len(self.sides) >= 3 or self.trace['share']:
			return
		if op['how'] == 'filter':
			if op['name'] not in side.nodes:
				return
			graph = must(lambda: side.graph.filter(nodes=[op['name']], direction=op['direction']), what)
		else:
			graph = must({
				'copy': side.graph.copy, 'deepcopy': lambda: copy.deepcopy(side.graph), 'pickle': lambda: pickle.loads(pickle.dumps(side.graph))
			}[op['how']], what)
		twin = side.twin(graph)
		left = {node.name for node in graph.nodes}
		twin.nodes = {name: colour for name, colour in twin.nodes.items() if name in left}
		twin.edges = {key: edge for key, edge in twin.edges.items() if key[0] in left and key[1] in left}
		self.sides.append(twin)
		self.ctx.count('op:copy')

	# renders
	def text(self, side, how, what):
		if how == 'render':
			return must(lambda: side.graph.render(view=False), what).source
		empty(self.ctx.scratch)
		with Disk(self.ctx.scratch, self.ctx) as disk:
			must(lambda: side.graph.render(path='picture.svg', view=False) if how == 'save' else side.graph.get_svg(), what)
			disk.verify_contained(what)
		return must(lambda: side.graph.get_graphviz_str(), what)

	def on_render(self, side, op, what):
		text = self.text(side, op['how'], what)
		self.handed += settle(side, what)
		drawn(side, text, what)
		self.ctx.count('renders')

	def on_fail(self, side, op, what):
		if op['how'] == 'converter':
			Plan.reset(fail_at=op['at'])
			_, error = call(lambda: side.graph.render(view=False))
			fired = Plan.fired
			Plan.reset()
			name = 'label converter failed'
		elif op['how'] == 'layout':
			empty(self.ctx.scratch)
			with Disk(self.ctx.scratch, self.ctx) as disk:
				disk.plan({'layout': [{'kind': 'exit', 'share': 0}]})
				_, error = call(lambda: side.graph.render(path='picture.svg', view=False))
				fired = bool(disk.hits)
				disk.verify_contained(what)
			name = None
		elif self.trace['share']:
			return
		else:
			STEPPER.fine()
			trial = must(side.graph.copy, 'copy')
			_, error = STEPPER.run(lambda: trial.render(view=False), limit=BUDGET)
			if error is not None:
				raise Violation('unexpected-error', f'{what} raised {type(error).__name__}: {error}')
			exception = EXCEPTIONS[self.trace['exception']]
			_, error = STEPPER.run(
				lambda: side.graph.render(view=False), limit=BUDGET, target=1 + STEPPER.count * op['share'] // 1000,
				exception=exception('injected by the simulator')
			)
			fired = STEPPER.fired
			STEPPER.coarse()
			if fired:
				self.ctx.points.add(fired)
			name = f'{exception.__name__} in a render'
		if not fired:
			if error is not None:
				raise Violation('unexpected-error', f'{what} raised {type(error).__name__}: {error}')
			self.handed += settle(side, what)
			return
		if name:
			self.ctx.fault(name)
		# what was chosen before it failed is what would have been chosen
		settle(side, what, partly=True)

	def on_threads(self, side, op, what):
		"""Several graphs are rendered at the same time."""
		picked = sorted({i for i in op['graphs'] if i < len(self.sides)})
		if len(picked) < 2 or self.trace['share']:
			return
		sides = [self.sides[i] for i in picked]
		# the rehearsal must not choose the colours already
		copies = [must(side.graph.copy, what) for side in sides]
		STEPPER.threads()
		rehearsal = Scheduler([lambda graph=graph: graph.render(view=False).source for graph in copies], rehearse=True)
		alone = rehearsal.run()
		scheduler = Scheduler([lambda side=side: side.graph.render(view=False).source for side in sides], resolve(op['plan'], rehearsal))
		results = scheduler.run()
		STEPPER.coarse()
		self.ctx.points |= scheduler.points
		self.ctx.fault('thread switch inside a call', scheduler.switched)
		for side, i, first, (text, error) in zip(sides, picked, alone, results):
			for failed in (first[1], error):
				if failed is not None:
					raise Violation('unexpected-error', f'{what} raised {type(failed).__name__}: {failed}')
			self.handed += settle(side, f'{what}: graph {i}')
			drawn(side, text, f'{what}: graph {i}')

	def on_child(self, side, op, what):
		if self.trace['share']:
			return
		data = must(lambda: pickle.dumps(side.graph), what)
		self.ctx.helpers[0].request({
			'property': ID, 'data': base64.b64encode(data).decode(), 'scheme': side.scheme, 'stylist': side.stylist,
			'nodes': [[name, colour] for name, colour in side.nodes.items()], 'edges': [[list(key), edge] for key, edge in side.edges.items()]
		})
		self.ctx.count('op:rendered in another process')

	def verify_all(self, what):
		for i, side in enumerate(self.sides):
			verify(side, f'{what}: graph {i}')


def settle(side, what, partly=False):
	"""Takes over the colours that a render chose, and compares them; returns how many were handed down."""
	graph, handed = side.graph, 0
	expected = side.chosen()
	fresh = [name for name, colour in side.nodes.items() if colour is None]
	for name in fresh:
		node = graph.nodes_dict[name]
		if not node.has_style():
			check(partly, 'wrong-colour', f'{what}: node {name!r} has no style')
			continue
		found = tuple(node.style.colour.rgb)
		if expected[name] is not None:
			check(
				near(found, expected[name]), 'wrong-colour', f'{what}: node {name!r} below {side.parents(name)} is {found}, expected {expected[name]}'
			)
		side.nodes[name] = found
		handed += bool(side.parents(name))
	if side.stylist == 'random':
		even(side, [side.nodes[name] for name in fresh if side.nodes[name] is not None], what)
	for key, edge in side.edges.items():
		if edge[0] is not None:
			continue
		item = graph.edges_dict[key]
		if not item.has_style():
			check(partly, 'wrong-colour', f'{what}: edge {key} has no style')
			continue
		found, wanted = tuple(item.style.colour.rgb), side.edge_colour(key, side.nodes)
		check(wanted is not None and near(found, wanted), 'wrong-colour', f'{what}: edge {key} is {found}, expected {wanted}')
		edge[0] = found
		edge[2] = 0.5 * edge[1] if isinstance(edge[1], (int, float)) else 0.5
	return handed


def even(side, found, what):
	"""No colour of the scheme is used twice before all were used once."""
	colours = scheme_colours(side.scheme)
	counts = [sum(near(one, colour) for one in found) for colour in colours]
	wanted = [len(found) // len(colours) + (i < len(found) % len(colours)) for i in range(len(colours))]
	expect_equal(counts, wanted, 'wrong-colour', f'{what}: how often the colours of the scheme were used')


def verify(side, what):
	"""The colours that were chosen stay."""
	for name, colour in side.nodes.items():
		node = side.graph.nodes_dict[name]
		check(node.has_style() == (colour is not None), 'wrong-colour', f'{what}: has_style of node {name!r}')
		if colour is not None:
			check(near(node.style.colour.rgb, colour), 'wrong-colour', f'{what}: node {name!r} is {node.style.colour.rgb}, was {colour}')


def channels(text):
	return [int(text[i:i + 2], 16) for i in (1, 3, 5)]


def alike(found, rgb):
	return all(abs(a - 255 * b) <= 2 for a, b in zip(channels(found), rgb))


def drawn(side, text, what):
	"""What is drawn shows the colours."""
	found = parse(text)
	expect_equal([name for name, _ in found['nodes']], [str(name) for name in side.nodes], 'wrong-colour', f'{what}: nodes')
	for (name, attrs), colour in zip(found['nodes'], side.nodes.values()):
		fill = changed(colour, lightness=lambda l: l + (1 - l) * 0.5)
		border = changed(colour, lightness=lambda l: l - l ** 0.5 * 0.5 / 3)
		check(alike(attrs.get('fillcolor', '#'.ljust(7, '0')), fill), 'wrong-colour', f'{what}: node {name!r} is filled with {attrs.get("fillcolor")}, but its colour is {colour}')
		check(alike(attrs.get('color', '#'.ljust(7, '0')), border), 'wrong-colour', f'{what}: the border of node {name!r} is {attrs.get("color")}, but its colour is {colour}')
		lightness = colorsys.rgb_to_hls(*fill)[1]
		if abs(lightness - 0.5) > 0.01:
			expect_equal(
				attrs.get('fontcolor', '').lower(), '#ffffff' if lightness < 0.5 else '#000000', 'wrong-colour', f'{what}: text of node {name!r}, filled with {fill}'
			)
	wanted = [(str(key[0]), str(key[1]), edge) for key, edge in side.edges.items()]
	expect_equal(
		sorted((start, end) for start, end, _ in found['edges']), sorted((start, end) for start, end, _ in wanted), 'wrong-colour', f'{what}: edges'
	)
	for start, end, attrs in found['edges']:
		for candidate in wanted:
			if candidate[:2] == (start, end) and alike(attrs.get('color', '#'.ljust(7, '0')), candidate[2][0]) and float(attrs.get('arrowsize', 'nan')) == candidate[2][2]:
				wanted.remove(candidate)
				break
		else:
			raise Violation('wrong-colour', f'{what}: edge {start!r} -> {end!r} is drawn with {attrs}, expected one of {short(wanted)}')


def in_child(request):
	graph = must(lambda: pickle.loads(base64.b64decode(request['data'])), 'unpickling')
	side = Side(graph, request['scheme'], request['stylist'])
	side.nodes = {name: colour and tuple(colour) for name, colour in request['nodes']}
	side.edges = {tuple(key): edge for key, edge in request['edges']}
	text = must(lambda: graph.render(view=False), 'restored').source
	settle(side, 'restored in another process')
	drawn(side, text, 'restored in another process')
	return True


def run(trace, ctx):
	Plan.reset()
	simulation = Simulation(trace, ctx)
	for i, op in enumerate(trace['history']):
		if op['graph'] >= len(simulation.sides):
			continue
		what = f'call {i} {op}'
		getattr(simulation, 'on_' + op['op'])(simulation.sides[op['graph']], op, what)
		simulation.verify_all(what)
		ctx.log(what)
	ctx.nontrivial = simulation.handed > 0
	colours = [[node.style.colour.hexadecimal if node.has_style() else None for node in side.graph.nodes] for side in simulation.sides]
	ctx.state(colours)
	ctx.log('end', colours)
