"""C10: building from another object is exact, and safe when the source fails."""
import copy
import warnings

from .. import gen as g
from ..callbacks import CallerError, Plan
from ..core import Violation, check, expect_equal, short
from ..dot import parse
from ..model import BAD_STYLES, Model, Refused, style_view
from ..sut import Edge, EdgeStyle, Graph, Node, NodeStyle
from ..world import World, call, compare_view, expected_view, graph_arguments, make_style, must, observe, plain, settings

ID = 'C10'
LEVEL = 'fault_enumeration'
RUNS = {'quick': 7500, 'thorough': 90000}
LISTS = [('history',), ('parts',), ('parts', '*', 'nodes'), ('parts', '*', 'edges'), ('later',), ('rows',)]
RULE = (
	'one evaluation = a graph with a seeded history and a seeded source (a dictionary, an object with a conversion method, another '
	'graph, a nested list of them, or start/end/label lists) that is taken in whole and compared with the reference model, and then '
	'again on rebuilt graphs with the source failing at each of its accesses in turn, or with a malformed entry at each place in turn, '
	'or with warnings as errors, each time followed by the complete source; the source is compared before and after; non-trivial = '
	'the source describes at least one node; distinct = different traces'
)
TECHNIQUE = 'deterministic simulation: a live source that fails at every access or presents a malformed entry at every place, against prefixes of a reference model'
REAL = ['abstract._GraphWithoutDisplay', 'abstract._BasicGraph', 'abstract.Node', 'abstract.Edge', 'abstract.styling', 'colouration']
STUB = ['the source: dictionaries, lists and conversion methods of the caller']
STATES = 'contents (nodes and edges) of graphs, whole and after a failure'
POINTS = 'places in a source at which it failed (kind of access)'
ERRORS = (CallerError, AttributeError, KeyError, RuntimeError, OSError, ValueError, TypeError)


class Source:
	"""Decides at which access a source fails."""

	def __init__(self, fail_at=None, error=CallerError):
		self.calls = 0
		self.fail_at = fail_at
		self.error = error
		self.fired = None

	def touch(self, what):
		self.calls += 1
		if self.calls == self.fail_at:
			self.fired = what
			raise self.error(f'the source of the caller failed at access {self.calls}: {what}')


class LiveDict(dict):
	"""A dictionary whose every access may fail."""

	def __init__(self, source, what, content):
		super().__init__(content)
		self.source = source
		self.what = what

	def _touch(self, how):
		self.source.touch(f'{how} of {self.what}')

	def __getitem__(self, key):
		self._touch('item')
		return super().__getitem__(key)

	def get(self, *args):
		self._touch('item')
		return super().get(*args)

	def __contains__(self, key):
		self._touch('membership')
		return super().__contains__(key)

	def __iter__(self):
		for key in list(super().keys()):
			self._touch('iteration')
			yield key

	def keys(self):
		self._touch('keys')
		return list(iter(self))

	def items(self):
		for item in list(super().items()):
			self._touch('iteration')
			yield item
		self._touch('end')

	def values(self):
		for item in list(super().values()):
			self._touch('iteration')
			yield item

	def __len__(self):
		self._touch('length')
		return super().__len__()


class LiveList(list):
	def __init__(self, source, what, content):
		super().__init__(content)
		self.source = source
		self.what = what

	def __iter__(self):
		for item in list(super().__iter__()):
			self.source.touch(f'iteration of {self.what}')
			yield item
		self.source.touch(f'end of {self.what}')

	def __len__(self):
		self.source.touch(f'length of {self.what}')
		return super().__len__()

	def __getitem__(self, index):
		self.source.touch(f'item of {self.what}')
		return super().__getitem__(index)


class Convertible:
	def __init__(self, source, description):
		self.source = source
		self.description = description

	def __graph__(self):
		self.source.touch('conversion')
		return self.description


# generation
SHAPES = ('dict', 'dict', 'dict', 'object', 'object', 'graph')
MALFORMED = (
	'short edge', 'long edge', 'edge that is a number', 'edge that is nothing', 'unknown start', 'unknown end', 'bad node style', 'bad edge style',
	'bad node name', 'bad end', 'node attributes that are a number', 'edge attributes that are a number', 'nodes missing', 'edges missing',
	'not a description', 'nothing as description', 'duplicate refused', 'edge style of no edge', 'edge colour of no edge', 'unhashable edge id', 'nodes that are a number'
)


def gen_part(rng, config, model, shape):
	"""One description, as JSON: what it says, entry by entry."""
	part = {'shape': shape, 'nodes': [], 'edges': []}
	pool = list(config['names'])
	rng.shuffle(pool)
	if rng.random() < 0.7:
		pool = [name for name in pool if name not in model.nodes] or pool
	chosen = pool[:rng.choice((0, 1, 2, 3, 4))]
	if shape != 'graph' and rng.random() < 0.15:
		part['plain nodes'] = rng.choice(('list', 'tuple', 'keys'))
	for name in chosen:
		attrs = {} if 'plain nodes' in part else g.attributes(rng, config, 'node')
		if name in model.nodes and (model.nodes[name].style is not None and not config['overwrite']):
			attrs.pop('style', None)
		part['nodes'].append([name, attrs])
	known = chosen if shape == 'graph' else list(dict.fromkeys(list(model.nodes) + chosen))
	keys = set()
	for _ in range(rng.choice((0, 1, 2, 3, 4)) if known else 0):
		start, end = rng.choice(known), rng.choice(known)
		if start == end and rng.random() >= config['loops']:
			continue
		key = (start, end, rng.choice(g.IDS) if config['parallel'] else None)
		if key in keys:
			continue
		keys.add(key)
		attrs = None if rng.random() < 0.2 and key[2] is None else g.attributes(rng, config, 'edge')
		if attrs is not None and key in model.edges and model.edges[key].style is not None and not config['overwrite']:
			attrs.pop('style', None)
		if key[2] is not None:
			attrs['id'] = key[2]
		part['edges'].append([start, end, attrs, rng.choice(('list', 'tuple'))])
	if shape == 'graph':
		for _, attrs in part['nodes'] + [(None, edge[2] or {}) for edge in part['edges']]:
			for key in ('params', 'tooltip'):
				attrs.pop(key, None)
		if rng.random() < 0.5:
			# it was described, or rendered, before its last edits
			part['detour'] = [rng.choice(('described', 'described', 'merged', 'text')), rng.randint(0, 3), rng.random() < 0.5]
		return part
	for key, values in (
		('strict', (True, False)), ('ordering', (True, False)), ('label', ('a title', None, '\nT')), ('tooltip', ('tip of it', None)),
		('label_url', ('https://example.org', None)), ('direction', ('LR', 'TB', 'RL', 'BT'))
	):
		if rng.random() < 0.15:
			part.setdefault('settings', {})[key] = rng.choice(values)
	if rng.random() < 0.2:
		part.setdefault('settings', {})[rng.choice(('global_node_style', 'graph_node_style'))] = {'shape': rng.choice(('hexagon', 'octagon'))}
	if rng.random() < 0.2:
		part.setdefault('settings', {})[rng.choice(('global_edge_style', 'graph_edge_style'))] = {'line_width': rng.choice((5, 6))}
	if rng.random() < 0.3:
		part['node_styles'] = [[name, {'text_size': rng.choice((15, 17, 19))}] for name in rng.sample(config['names'], min(2, len(config['names'])))]
	if config['overwrite']:
		if rng.random() < 0.3:
			part['node_colours'] = [[rng.choice(config['names']), rng.choice(g.COLOURS)]]
		for table in ('edge_styles', 'edge_colours'):
			if part['edges'] and rng.random() < 0.4:
				start, end, attrs, _ = rng.choice(part['edges'])
				key = [start, end, (attrs or {}).get('id')]
				if sum(edge[:2] == [start, end] for edge in part['edges']) == 1 and rng.random() < 0.5:
					key = key[:2]
				part[table] = [[key, {'text_size': rng.choice((11, 13))} if table == 'edge_styles' else rng.choice(g.COLOURS)]]
	return part


def gen(rng, index, tier):
	config = g.configuration(rng, max_nodes=rng.choice((3, 5, 7)))
	config['refuse'] = 0.05
	config['styles'] = rng.choice((0.0, 0.3)) if not config['overwrite'] else rng.choice((0.0, 0.4))
	if rng.random() < 0.12:
		n = rng.randint(0, 6) if rng.random() < 0.85 else rng.randint(10, 16)
		return {
			'mode': 'lists', 'rows': [[rng.choice(config['names']), rng.choice(config['names']), rng.choice(('x', 'y', None))] for _ in range(n)],
			'strict': rng.choice((None, True, False)), 'error': rng.randrange(len(ERRORS)), 'bad': rng.random() < 0.4
		}
	trace = {
		'mode': rng.choice(('access', 'access', 'malformed', 'warnings')), 'entry': rng.choice(('append', 'append', 'init', 'from_dict')),
		'overwrite': config['overwrite'], 'arguments': g.arguments(rng, rng.choice((0.0, 0.3))), 'history': [], 'parts': [],
		'error': rng.randrange(len(ERRORS)), 'malformed': rng.choice(MALFORMED), 'later': []
	}
	for key in ('node_style', 'edge_style'):
		trace['arguments'].pop(key, None)
	model = Model(config['overwrite'])
	if trace['entry'] == 'append':
		for _ in range(rng.choice((0, 2, 5, 9))):
			op = g.next_op(rng, config, model)
			trace['history'].append(op)
			try:
				model.apply(op)
			except Refused:
				pass
	for _ in range(rng.choice((1, 1, 1, 1, 2, 3))):
		part = gen_part(rng, config, model, rng.choice(SHAPES))
		trace['parts'].append(part)
		for op in entries(part):
			try:
				model.apply(op)
			except Refused:
				pass
	if len(trace['parts']) > 1 or rng.random() < 0.1:
		trace['list'] = rng.choice(('list', 'tuple', 'nested'))
	elif config['overwrite'] and trace['entry'] == 'init' and trace['parts'][0]['shape'] != 'graph' and rng.random() < 0.5:
		# the description itself allows styles to be overwritten
		trace['permission given'] = True
		trace['parts'][0].setdefault('settings', {})['style_overwrite_allowed'] = True
	for _ in range(rng.choice((0, 2, 4))):
		op = g.next_op(rng, config, model)
		if op['op'] != 'stale' and not (op['op'] == 'connect' and len(model.edges) >= 10):
			trace['later'].append(op)
			try:
				model.apply(op)
			except Refused:
				pass
	return trace


def entries(part):
	"""The edits that a description stands for, in its order."""
	result = [{'op': 'add', 'name': name, 'attrs': dict(attrs, policy='warn')} for name, attrs in part['nodes']]
	edges = part['edges']
	if part['shape'] == 'graph':
		# a graph gives its edges node by node
		order = [name for name, _ in part['nodes']]
		edges = sorted(edges, key=lambda edge: order.index(edge[0]) if edge[0] in order else -1)
	for start, end, attrs, _ in edges:
		attrs = attrs or {}
		result.append({
			'op': 'connect', 'start': start, 'end': end, 'id': attrs.get('id'),
			'attrs': dict({k: v for k, v in attrs.items() if k != 'id'}, policy='warn')
		})
	return result


# the source, as an object
def build_part(part, source, malformed=None, place=0):
	if part['shape'] == 'graph':
		return build_graph(part)
	nodes = [(name, LiveDict(source, 'node attributes', attributes('node', attrs))) for name, attrs in part['nodes']]
	edges = []
	for start, end, attrs, kind in part['edges']:
		entry = [start, end]
		if attrs is not None:
			entry.append(LiveDict(source, 'edge attributes', attributes('edge', attrs)))
		edges.append(entry if kind == 'list' else tuple(entry))
	edges = [LiveList(source, 'edge', entry) if isinstance(entry, list) else entry for entry in edges]
	nodes, edges, extra = spoil(part, nodes, edges, malformed, place)
	if nodes == 'a number':
		content = 5
	elif 'plain nodes' in part:
		names = [name for name, _ in nodes]
		content = {'list': LiveList(source, 'nodes', names), 'tuple': tuple(names), 'keys': dict.fromkeys(names).keys()}[part['plain nodes']]
	else:
		content = LiveDict(source, 'nodes', dict(nodes))
	description = {'nodes': content, 'edges': LiveList(source, 'edges', edges)}
	description.update(copy.deepcopy(part.get('settings') or {}))
	for table in ('node_styles', 'edge_styles', 'node_colours', 'edge_colours'):
		if table in part:
			pairs = {tuple(key) if isinstance(key, list) else key: copy.deepcopy(value) for key, value in part[table]}
			description[table] = LiveDict(source, table, pairs)
	for table, value in extra.items():
		if value is None:
			description.pop(table, None)
		else:
			description[table] = dict(description.get(table) or {}, **{}) | value
	description = LiveDict(source, 'description', description)
	if malformed == 'not a description':
		description = 'not a description'
	elif malformed == 'nothing as description':
		description = None
	return Convertible(source, description) if part['shape'] == 'object' else description


def build_graph(part):
	graph = Graph()
	how, at, relabel = part.get('detour') or (None, -1, False)

	def given(kind, attrs):
		"""What an item gets at first: other labels and values, where it gets them later."""
		result = attributes(kind, attrs or {})
		if relabel:
			result.update((key, 'old') for key in ('label', 'value') if result.get(key) is not None)
		return result

	for i, (name, attrs) in enumerate(part['nodes']):
		if i == at:
			graph.add_node(name='detour')
		graph.add_node(name=name, **given('node', attrs))
	if 'detour' in graph:
		for name, _ in part['nodes']:
			graph.connect(start=name, end='detour')
			graph.connect(start='detour', end=name, id=1)
	for i, (start, end, attrs, _) in enumerate(part['edges']):
		if start in graph and end in graph:
			if i == at:
				# an edge that will be gone
				graph.connect(start=start, end=end, id='detour')
			graph.connect(start=start, end=end, **given('edge', attrs))
	if how == 'described':
		Graph(obj=graph)
	elif how == 'merged':
		graph + graph
	elif how == 'text':
		graph.get_graphviz_str()
	if 'detour' in graph:
		graph.remove_node(node='detour')
	for edge in graph.edges:
		if edge.raw_id == 'detour':
			graph.disconnect(edge=edge)
	if relabel:
		for name, attrs in part['nodes']:
			for key in ('label', 'value'):
				if attrs.get(key) is not None:
					setattr(graph.get_node(name), key, copy.copy(attrs[key]))
		for start, end, attrs, _ in part['edges']:
			if start in graph and end in graph:
				edge = graph.edges_dict[start, end, (attrs or {}).get('id')]
				for key in ('label', 'value'):
					if (attrs or {}).get(key) is not None:
						setattr(edge, key, copy.copy(attrs[key]))
	return graph


def attributes(kind, attrs):
	result = {key: copy.copy(attrs[key]) for key in ('label', 'value', 'tooltip', 'id') if key in attrs}
	if attrs.get('style') is not None:
		result['style'] = make_style(kind, attrs['style'])
	result.update(copy.deepcopy(attrs.get('params') or {}))
	return result


def spoil(part, nodes, edges, malformed, place):
	"""Puts a malformed entry at a place among the good ones."""
	extra = {}
	if malformed is None:
		return nodes, edges, extra
	nodes, edges = list(nodes), list(edges)
	bad_edges = {
		'short edge': lambda: [first(part)], 'long edge': lambda: [first(part), first(part), {'id': 'bad'}, {}], 'edge that is a number': lambda: 7, 'edge that is nothing': lambda: None,
		'unknown start': lambda: ['nowhere', first(part), {}], 'unknown end': lambda: [first(part), 'nowhere'],
		'bad edge style': lambda: [first(part), first(part), {'style': 5, 'id': 'bad'}], 'bad end': lambda: [first(part), None, {}],
		'edge attributes that are a number': lambda: [first(part), first(part), 5],
		'unhashable edge id': lambda: [first(part), first(part), {'id': ['unhashable']}],
		'duplicate refused': lambda: (list(edges[0])[:2] + [{'if_edge_exists': 'error', **dict_of(edges[0])}])
	}
	bad_nodes = {
		'bad node style': lambda: ('spoiled', {'style': 'red'}), 'bad node name': lambda: (None, {}),
		'node attributes that are a number': lambda: ('spoiled', 5)
	}
	if malformed in bad_edges:
		edges.insert(place, bad_edges[malformed]())
	elif malformed in bad_nodes:
		nodes.insert(place, bad_nodes[malformed]())
	elif malformed == 'nodes missing':
		extra['nodes'] = None
	elif malformed == 'edges missing':
		extra['edges'] = None
	elif malformed == 'nodes that are a number':
		nodes = 'a number'
	elif malformed == 'edge style of no edge':
		extra['edge_styles'] = {('nowhere', 'nowhere'): {'text_size': 13}}
	elif malformed == 'edge colour of no edge':
		extra['edge_colours'] = {('nowhere', 'nowhere'): 'red'}
	return nodes, edges, extra


def first(part):
	return part['nodes'][0][0]


def dict_of(edge):
	edge = list(edge)
	return {k: v for k, v in dict.items(edge[2]) if k == 'id'} if len(edge) > 2 else {}


def places(part, malformed):
	"""The places at which this malformed entry can be, and how many good entries come before it."""
	n, m = len(part['nodes']), len(part['edges'])
	if part['shape'] == 'graph':
		return []
	if malformed in ('nodes missing', 'not a description', 'nodes that are a number'):
		return [(0, 0)]
	if malformed == 'nothing as description':
		return [(0, 0)] if part['shape'] == 'object' else []
	if malformed == 'edges missing':
		return [(0, n)]
	if malformed in ('edge style of no edge', 'edge colour of no edge'):
		return [(0, n + m)]
	if malformed in ('bad node style', 'bad node name', 'node attributes that are a number'):
		if 'plain nodes' in part and malformed != 'bad node name':
			return []
		return [(i, i) for i in range(n + 1)]
	if malformed == 'duplicate refused':
		if not m or (part['edges'][0][2] or {}).get('style') is not None:
			return []
		return [(i, n + i) for i in range(1, m + 1)]
	if not n and malformed not in ('edge that is a number', 'edge that is nothing'):
		return []
	return [(i, n + i) for i in range(m + 1)]


def build_source(trace, source, malformed=None, which=0, place=0):
	parts = [
		build_part(part, source, malformed if i == which else None, place) for i, part in enumerate(trace['parts'])
	]
	kind = trace.get('list')
	if kind is None:
		return parts[0] if parts else {}
	if kind == 'nested':
		return [parts[:1], tuple(parts[1:])]
	return parts if kind == 'list' else tuple(parts)


def picture(obj):
	"""What a source holds, without disturbing its count of accesses."""
	if isinstance(obj, Convertible):
		return ('convertible', picture(obj.description))
	if isinstance(obj, Graph):
		return ('graph', repr(observe(obj)), repr(settings(obj)))
	if isinstance(obj, dict):
		return {key: picture(value) for key, value in dict.items(obj)}
	if isinstance(obj, list):
		return [picture(value) for value in list.__iter__(obj)]
	if isinstance(obj, tuple):
		return tuple(picture(value) for value in obj)
	if isinstance(obj, (NodeStyle, EdgeStyle)):
		return obj.get_graphviz_str()
	return repr(obj)


# execution
class Target:
	"""The graph that takes the source in, or is made from it."""

	def __init__(self, trace, ctx):
		self.trace = trace
		self.world = World(trace['arguments'] if trace['entry'] == 'append' else {}, trace['overwrite'], ctx=ctx)
		for op in trace['history'] if trace['entry'] == 'append' else ():
			self.world.apply(op)
		self.held = dict(self.world.nodes), dict(self.world.edges)

	def take(self, obj, mode):
		trace = self.trace
		entry = trace['entry']

		def work():
			if entry == 'append':
				return self.world.graph.append(obj)
			if entry == 'init':
				arguments = graph_arguments(trace['arguments'])
				if trace['overwrite'] and not trace.get('permission given'):
					arguments['style_overwrite_allowed'] = True
				return Graph(obj=obj, **arguments)
			return Graph.from_dict(obj)
		return call(lambda: self.world.with_warnings({'warnings': mode}, work))

	def complete(self, obj, model, what):
		"""The whole source is taken in: the graph is exactly what it says."""
		result, error = self.take(obj, 'record')
		if error is not None:
			raise Violation('refused-valid-source', f'{what} raised {type(error).__name__}: {short(str(error), 300)}')
		graph = result[0]
		if self.trace['entry'] == 'append':
			check(graph is self.world.graph, 'wrong-object', f'{what} returned {short(graph)}')
		check(isinstance(graph, Graph), 'wrong-object', f'{what} gave {short(graph)}')
		self.world = World(graph=graph, model=model, ctx=self.world.ctx)
		self.verify(what, 'not-exact')

	def verify(self, what, kind):
		try:
			self.world.verify(what)
			self.world.verify_queries(what)
		except Violation as violation:
			raise Violation(kind, violation.message)
		for name, node in self.held[0].items():
			check(self.world.graph.get_node(name) is node, kind, f'{what}: node {name!r}, which the graph held before, is another object')
		edges = self.world.graph.edges_dict
		for key, edge in self.held[1].items():
			check(edges[key] is edge, kind, f'{what}: edge {key}, which the graph held before, is another object')


def prefixes(model, ops):
	"""The models after 0, 1, 2, ... entries; ends at an entry that is refused."""
	result = [model.clone()]
	for op in ops:
		following = result[-1].clone()
		try:
			following.apply(op)
		except Refused:
			return result, op
		result.append(following)
	return result, None


def run(trace, ctx):
	Plan.reset()
	if trace['mode'] == 'lists':
		run_lists(trace, ctx)
		return
	if trace['entry'] == 'from_dict':
		trace['overwrite'] = False
	ops = [op for part in trace['parts'] for op in entries(part)]
	ctx.nontrivial = any(part['nodes'] for part in trace['parts'])
	target = Target(trace, ctx)
	models, refused = prefixes(target.world.model, ops)
	allowed = trace['overwrite']
	if trace.get('permission given') and (len(trace['parts']) != 1 or trace.get('list') is not None):
		return
	tables = any(table in part for part in trace['parts'] for table in ('node_colours', 'edge_styles', 'edge_colours'))
	if not all(usable(part) for part in trace['parts']) or (tables and not allowed) or refusing_source(trace):
		return
	source = Source()
	obj = build_source(trace, source)
	before = picture(obj)
	if refused is not None:
		# the source asks for something that the graph has to refuse
		failed(target, obj, before, models[-1:], 'record', f'a source with {refused}, which is refused', ctx)
		return
	target.complete(obj, models[-1], 'the source')
	total = source.calls
	expect_equal(picture(obj), before, 'source-changed', 'taking the source in')
	check_settings(target.world, trace, 'the source')
	ctx.log('complete', repr(target.world.observe()))
	if trace['mode'] == 'access':
		stride = max(1, total // 40)
		for k in trace.get('only') or range(1 + trace['error'] % stride, total + 1, stride):
			error = ERRORS[(k + trace['error']) % len(ERRORS)]
			source = Source(k, error)
			again(trace, source, None, 0, 0, models, 'record', f'a source failing at access {k} with {error.__name__}', ctx, k)
	elif trace['mode'] == 'malformed':
		for i, part in enumerate(trace['parts']):
			if trace['malformed'] == 'nothing as description' and trace['entry'] == 'init' and trace.get('list') is None:
				# a graph made from nothing is an empty graph
				continue
			skipped = sum(len(entries(p)) for p in trace['parts'][:i])
			for place, good in places(part, trace['malformed']):
				what = f'a source with {trace["malformed"]} at place {place} of part {i}'
				ctx.fault(trace['malformed'])
				again(trace, Source(), trace['malformed'], i, place, models[:skipped + good + 1], 'record', what, ctx, None)
	elif trace['mode'] == 'warnings':
		known = target_models(trace, models)
		if known is not None:
			again(trace, Source(), None, 0, 0, known, 'error', 'a source with a duplicate, warnings being errors', ctx, None)
	later(target, trace, obj, before, ctx)


def target_models(trace, models):
	"""The prefixes up to the first entry that gives a warning; None if there is none."""
	ops = [op for part in trace['parts'] for op in entries(part)]
	for i, op in enumerate(ops):
		model = models[i]
		if op['op'] == 'add' and op['name'] in model.nodes:
			return models[:i + 1]
		if op['op'] == 'connect' and (op['start'], op['end'], op['id']) in model.edges:
			return models[:i + 1]
	return None


def usable(part):
	"""Shrinking may leave tables and edges that refer to nothing: such sources are not described by the model."""
	names = [name for name, _ in part['nodes']]
	if len(set(names)) < len(names):
		return False
	pairs = [(edge[0], edge[1]) for edge in part['edges']]
	keys = [(edge[0], edge[1], (edge[2] or {}).get('id')) for edge in part['edges']]
	if part['shape'] == 'graph' and any(start not in names or end not in names for start, end in pairs):
		return False
	for table in ('edge_styles', 'edge_colours'):
		for key, _ in part.get(table, ()):
			if tuple(key) not in (pairs if len(key) == 2 else keys):
				return False
	return len(set(keys)) == len(keys)


def refusing_source(trace):
	return any('bad' in (attrs.get('style') or {}) for part in trace['parts'] for _, attrs in part['nodes'])


def again(trace, source, malformed, which, place, models, mode, what, ctx, k):
	"""The source fails; then the complete source is taken in."""
	target = Target(trace, None)
	obj = build_source(trace, source, malformed, which, place)
	before = picture(obj)
	try:
		if not failed(target, obj, before, models, mode, what, ctx, source if k is not None else None):
			return
		ops = [op for part in trace['parts'] for op in entries(part)]
		full, refused = prefixes(target.world.model, ops)
		if refused is not None:
			# only styles that must not be overwritten
			return
		whole = build_source(trace, Source())
		target.complete(whole, full[-1], f'the complete source after {what}')
		check_settings(target.world, trace, f'the complete source after {what}')
	except Violation:
		if k is not None:
			ctx.resolved = dict(trace, only=[k])
		raise


def failed(target, obj, before, models, mode, what, ctx, source=None):
	"""Returns False if the failure was not met."""
	result, error = target.take(obj, mode)
	if source is not None:
		if source.fired is None:
			return False
		ctx.fault('source failed')
		ctx.points.add((source.fired, target.trace['entry']))
	elif mode == 'error':
		ctx.fault('warning as error')
	if error is None and source is not None and source.fired == 'conversion' and source.error is AttributeError:
		# an object whose conversion has no attribute may be asked again
		return False
	check(error is not None, 'error-lost', f'{what}: no error reached the caller, the call gave {short(result)}')
	expect_equal(picture(obj), before, 'source-changed', what)
	if target.trace['entry'] != 'append':
		return True
	# what was taken in is a prefix
	graph = target.world.graph
	got = must(lambda: observe(graph), f'{what}: observing the graph')
	for model in reversed(models):
		try:
			compare_view(got, model, 'not-a-prefix', what)
		except Violation:
			continue
		break
	else:
		compare_view(got, models[-1], 'not-a-prefix', what)
	target.world = World(graph=graph, model=model.clone(), ctx=target.world.ctx)
	target.verify(what, 'not-a-prefix')
	ctx.log(what, len(models))
	return True


def check_settings(world, trace, what):
	"""The settings that descriptions give are those of the graph."""
	graph = world.graph
	given = {}
	for part in trace['parts']:
		if part['shape'] == 'graph':
			return
		given.update(part.get('settings') or {})
	found = settings(graph)
	for key in ('strict', 'ordering', 'label_url'):
		if key in given:
			expect_equal(found[key], given[key], 'not-exact', f'{what}: {key}')
	header = parse(graph.get_graphviz_str())['graph']
	if 'direction' in given:
		expect_equal(header.get('rankdir', 'TB'), given['direction'], 'not-exact', f'{what}: direction')
	if 'tooltip' in given:
		expect_equal(header.get('tooltip'), given['tooltip'], 'not-exact', f'{what}: tooltip')
	if given.get('label') is not None:
		check(given['label'].strip() in header.get('label', ''), 'not-exact', f'{what}: label {header.get("label")!r} instead of {given["label"]!r}')


def later(target, trace, obj, before, ctx):
	"""The graph goes on living; its source does not notice, and the style tables of the source take effect."""
	world = target.world
	small = len(world.model.edges) <= 10
	if small:
		text = must(lambda: world.graph.render(view=False), 'render').source
		world.model.do_render({})
		found = parse(text)
		check_tables(world, trace, found)
		expect_equal(picture(obj), before, 'source-changed', 'rendering the graph')
	for op in trace['later']:
		world.apply(op)
		world.verify(f'{op} afterwards')
	if small:
		must(lambda: world.graph.render(view=False), 'render')
	if not any(op['op'] == 'touch' for op in trace['later']):
		expect_equal(picture(obj), before, 'source-changed', 'later edits of the graph')


def check_tables(world, trace, found):
	nodes = {str(name): attrs for name, attrs in found['nodes']}
	sizes, colours, edge_sizes, edge_colours, everywhere = {}, {}, {}, {}, {}
	for part in trace['parts']:
		if part['shape'] == 'graph':
			# its own settings replace those given so far
			everywhere = {}
			continue
		for key, value in (part.get('settings') or {}).items():
			if key in ('global_node_style', 'graph_node_style'):
				everywhere['node'] = ('shape', value['shape'])
			elif key in ('global_edge_style', 'graph_edge_style'):
				everywhere['edge'] = ('penwidth', value['line_width'])
		for name, value in part.get('node_styles', ()):
			sizes[name] = value['text_size']
		for name, value in part.get('node_colours', ()):
			colours[name] = value
		for table, known in (('edge_styles', edge_sizes), ('edge_colours', edge_colours)):
			for key, value in part.get(table, ()):
				edge = [e for e in part['edges'] if e[:2] == key[:2] and (len(key) == 2 or (e[2] or {}).get('id') == key[2])][-1]
				known[(edge[0], edge[1], (edge[2] or {}).get('id'))] = value
	for name, size in sizes.items():
		if name in world.model.nodes:
			check(str(name) in nodes, 'not-exact', f'{name!r} is not in the DOT text')
			expect_equal(str(nodes[str(name)].get('fontsize')), str(size), 'not-exact', f'text size of {name!r}, which the source gives')
	graph = world.graph
	for name, colour in colours.items():
		if name in world.model.nodes:
			got = graph.get_node(name).style.colour.hexadecimal
			expect_equal(got, NodeStyle(colour=colour).colour.hexadecimal, 'not-exact', f'colour of {name!r}, which the source gives')
	for key, value in edge_sizes.items():
		if key in world.model.edges:
			text = world.edges[key].style.get_graphviz_str()
			check(f'"fontsize"="{value["text_size"]}"' in text, 'not-exact', f'text size of {key}, which the source gives: {text}')
	for key, colour in edge_colours.items():
		if key in world.model.edges:
			got = world.edges[key].style.colour.hexadecimal
			expect_equal(got, EdgeStyle(colour=colour).colour.hexadecimal, 'not-exact', f'colour of {key}, which the source gives')
	if 'node' in everywhere:
		for name, attrs in found['nodes']:
			expect_equal(attrs.get('shape'), everywhere['node'][1], 'not-exact', f'shape of {name!r}, which the source gives')
	if 'edge' in everywhere:
		for start, end, attrs in found['edges']:
			expect_equal(str(attrs.get('penwidth')), str(everywhere['edge'][1]), 'not-exact', f'width of {start}-{end}, which the source gives')


# start, end and label lists
def run_lists(trace, ctx):
	rows = trace['rows']
	ctx.nontrivial = len(rows) > 0
	model = Model(False)
	for i, (start, end, label) in enumerate(rows):
		for name in (start, end):
			model.apply({'op': 'add', 'name': name, 'attrs': {'policy': 'ignore'}})
		model.apply({'op': 'connect', 'start': start, 'end': end, 'id': i, 'attrs': {'label': label}})

	def lists(source, spoiled=None):
		columns = [[row[i] for row in rows] for i in range(3)]
		if spoiled is not None:
			columns[spoiled % 2][spoiled // 2] = (None, 1.5, ['a'])[spoiled % 3]
		return [LiveList(source, what, column) for what, column in zip(('starts', 'ends', 'labels'), columns)]

	def take(columns):
		arguments = {} if trace['strict'] is None else {'strict': trace['strict']}
		start, end, edge = columns
		return call(lambda: Graph.from_lists(start=start, end=end, edge=edge, **arguments))

	def complete(what):
		source = Source()
		columns = lists(source)
		before = picture(columns)
		graph, error = take(columns)
		if error is not None:
			raise Violation('refused-valid-source', f'{what} raised {type(error).__name__}: {error}')
		world = World(graph=graph, model=model.clone(), ctx=ctx)
		try:
			world.verify(what)
			world.verify_queries(what)
		except Violation as violation:
			raise Violation('not-exact', violation.message)
		if trace['strict'] is not None:
			expect_equal(settings(graph)['strict'], trace['strict'], 'not-exact', f'{what}: strict')
		expect_equal(picture(columns), before, 'source-changed', what)
		return source.calls

	total = complete('lists')
	for k in range(1, total + 1):
		error = ERRORS[(k + trace['error']) % len(ERRORS)]
		source = Source(k, error)
		columns = lists(source)
		before = picture(columns)
		_, raised = take(columns)
		ctx.fault('source failed')
		what = f'lists failing at access {k} with {error.__name__}'
		check(raised is not None, 'error-lost', f'{what}: no error reached the caller')
		expect_equal(picture(columns), before, 'source-changed', what)
	if trace['bad'] and rows:
		for spoiled in range(2 * len(rows)):
			columns = lists(Source(), spoiled)
			_, raised = take(columns)
			ctx.fault('bad name in a list')
			check(raised is not None, 'error-lost', f'lists with a bad name ({spoiled}): no error reached the caller')
	complete('lists after failures')
	ctx.log('lists', rows)
