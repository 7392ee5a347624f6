"""A graph of the code under test, side by side with its reference model.

Everything is observed through the public interface only.
"""
import copy
import warnings

from .core import Violation, check, expect_equal, short
from .model import Model, Refused, BAD_STYLES, BAD_NAMES, is_bad, style_view
from .mon import STEPPER, BUDGET
from .callbacks import CallerError, CONVERTERS
from .sut import Graph, Node, Edge, NodeStyle, EdgeStyle


class CallerWarning(Exception):
	"""Raised by the simulated warning hook of the caller."""


class AnyStyle:
	"""Stands for the style that a render gave to something."""

	def __eq__(self, other):
		return other is not None

	def __ne__(self, other):
		return other is None

	def __repr__(self):
		return '<any style>'

	__hash__ = None


ANY_STYLE = AnyStyle()


class AnyStyleOrNone(AnyStyle):
	def __eq__(self, other):
		return True

	def __ne__(self, other):
		return False


UNSURE = AnyStyleOrNone()
_style_text = {}


def graph_arguments(arguments):
	"""The keyword arguments of Graph() that a trace describes."""
	result = dict(arguments or {})
	for key in ('node_label_converter', 'edge_label_converter'):
		if key in result:
			result[key] = CONVERTERS[result[key]]
	for key in ('node_style', 'edge_style'):
		if type(result.get(key)) is dict:
			result[key] = dict(result[key])
	return result


def style_text(kind, style):
	"""The DOT attributes of a style with these settings, or None."""
	if style is None:
		return None
	settings = style_view(style)
	if 'rendered' in settings:
		return ANY_STYLE
	if 'unsure' in settings:
		return UNSURE
	key = (kind, tuple(sorted((k, str(v)) for k, v in settings.items())))
	if key not in _style_text:
		_style_text[key] = (NodeStyle if kind == 'node' else EdgeStyle)(**settings).get_graphviz_str()
	return _style_text[key]


def make_style(kind, style):
	if style is None:
		return None
	if is_bad(style):
		return BAD_STYLES[style['bad']]
	settings = style_view(style)
	if style.get('as') == 'object':
		return (NodeStyle if kind == 'node' else EdgeStyle)(**settings)
	return dict(settings)


def call(function, budget=BUDGET):
	"""Calls the code under test.  Returns (result, error); a call that does not end is a violation."""
	if STEPPER.scheduler is not None or STEPPER.active or not STEPPER.watch:
		try:
			return function(), None
		except Violation:
			raise
		except Exception as error:
			return None, error
	return STEPPER.run(function, limit=budget)


def must(function, what, budget=BUDGET):
	result, error = call(function, budget)
	if error is not None:
		raise Violation('unexpected-error', f'{what} raised {type(error).__name__}: {short(str(error), 300)}')
	return result


def item_view(kind, item, params=()):
	result = {
		'label': item.raw_label, 'value': item.value,
		'style': item.style.get_graphviz_str() if item.has_style() else None,
		'frozen': bool(item.is_frozen)
	}
	values = {}
	for key in params:
		try:
			values[key] = item.get(key)
		except KeyError:
			pass
	result['params'] = values
	return result


def observe(graph, params=('p', 'q')):
	"""What a user can see of a graph, without changing it."""
	nodes = {}
	outward = {}
	inward = {}
	edges = {}
	for node in graph.nodes:
		nodes[node.name] = item_view('node', node, params)
		outward[node.name] = [edge.id for edge in graph.get_outward_edges(node)]
		inward[node.name] = [edge.id for edge in graph.get_inward_edges(node)]
	for edge in graph.edges:
		edges[edge.id] = item_view('edge', edge, params)
	return {'nodes': nodes, 'edges': edges, 'outward': outward, 'inward': inward}


def observe_fully(graph, params=('p', 'q')):
	"""As observe, with everything that is only visible in the DOT text and in the conversion of the graph."""
	result = observe(graph, params)
	result['dot'] = graph.get_graphviz_str()
	result['settings'] = settings(graph)
	result['order'] = [node.name for node in sorted(graph.nodes)]
	result['list of edges'] = [edge.id for edge in graph.edges]
	return result


def plain(obj):
	if hasattr(obj, 'get_graphviz_str') and not isinstance(obj, (Graph, Node, Edge)):
		return obj.get_graphviz_str()
	if isinstance(obj, dict):
		return {key: plain(value) for key, value in obj.items()}
	if isinstance(obj, (list, tuple)):
		return [plain(value) for value in obj]
	if hasattr(obj, 'colours'):
		return [str(colour.hexadecimal) for colour in obj.colours]
	if hasattr(obj, 'hexadecimal'):
		return str(obj.hexadecimal)
	return obj


def settings(graph):
	description = graph.__graph__()
	return {key: plain(value) for key, value in description.items() if key not in ('nodes', 'edges')}


def expected_view(model):
	"""What observe() must give for this model."""
	view = model.view()
	for kind in ('node', 'edge'):
		for item in view[kind + 's'].values():
			item['style'] = style_text(kind, item['style'])
			del item['tooltip']
	return view


def compare_view(got, model, kind, what):
	expected = expected_view(model)
	expect_equal(list(got['nodes']), list(expected['nodes']), kind, f'{what}: nodes')
	expect_equal(got['nodes'], expected['nodes'], kind, f'{what}: content of nodes')
	expect_equal(sorted(got['edges'], key=repr), sorted(expected['edges'], key=repr), kind, f'{what}: edges')
	expect_equal(
		{key: got['edges'][key] for key in expected['edges']}, expected['edges'], kind, f'{what}: content of edges'
	)
	expect_equal(got['outward'], expected['outward'], kind, f'{what}: outward edges')
	expect_equal(got['inward'], expected['inward'], kind, f'{what}: inward edges')


class World:
	def __init__(self, arguments=None, overwrite=False, ctx=None, graph=None, model=None):
		arguments = graph_arguments(arguments)
		if overwrite:
			arguments['style_overwrite_allowed'] = True
		self.graph = graph if graph is not None else must(lambda: Graph(**arguments), 'Graph()')
		self.model = model if model is not None else Model(overwrite)
		self.nodes = {}
		self.edges = {}
		self.stale_edges = []
		self.stale_nodes = []
		self.ctx = ctx
		if graph is not None:
			self.adopt()

	def adopt(self):
		"""Gets hold of the objects of an existing graph."""
		self.nodes = {node.name: node for node in self.graph.nodes}
		self.edges = {edge.id: edge for edge in self.graph.edges}

	# the code under test
	def _node(self, name, by):
		if by == 'object' and name in self.nodes:
			return self.nodes[name]
		return name

	def make_style(self, kind, style):
		return make_style(kind, style)

	def _attributes(self, op, kind):
		attrs = op.get('attrs', {})
		result = {}
		for key in ('label', 'value', 'tooltip'):
			if key in attrs:
				result[key] = copy.copy(attrs[key])
		if attrs.get('style') is not None:
			result['style'] = self.make_style(kind, attrs['style'])
		result.update(copy.deepcopy(attrs.get('params') or {}))
		if 'policy' in attrs:
			result['if_node_exists' if kind == 'node' else 'if_edge_exists'] = attrs['policy']
		return result

	def perform(self, op):
		"""Makes the call on the code under test."""
		return getattr(self, 'on_' + op['op'])(op)

	def on_add(self, op):
		return self.graph.add_node(name=op['name'], **self._attributes(op, 'node'))

	def on_add_object(self, op):
		node = self.nodes.get(op['name'])
		if node is None:
			raise KeyError(op['name'])
		return self.graph.add_node(name=node)

	def on_bring(self, op):
		name = op['name']
		if op['from'] == 'donor':
			donor = Graph()
			others = [donor.add_node(name=f'other {i}') for i in range(op['others'])]
			node = donor.add_node(name=name, **self._attributes(op, 'node'))
			for other in others[:2]:
				donor.connect(start=other, end=node)
				donor.connect(start=node, end=other, id=1)
			donor.remove_node(node=node)
		else:
			absent = [i for i, (known, _) in enumerate(self.stale_nodes) if known == name]
			if name in self.nodes or not absent:
				raise KeyError(name)
			node = self.stale_nodes.pop(absent[-1])[1]
		return self.graph.add_node(name=node)

	def on_add_bad(self, op):
		return self.graph.add_node(name=BAD_NAMES[op['kind']], **self._attributes(op, 'node'))

	def on_connect(self, op):
		attributes = self._attributes(op, 'edge')
		if op.get('id') is not None:
			attributes['id'] = op['id']
		by = op.get('by', 'name')
		start, end = op['start'], op['end']
		if by == 'to' and start in self.nodes and end in self.nodes:
			return self.nodes[start].connect_to(self.nodes[end], **attributes)
		if by == 'from' and start in self.nodes and end in self.nodes:
			return self.nodes[end].connect_from(self.nodes[start], **attributes)
		return self.graph.connect(
			start=self._node(start, 'object' if by in ('object', 'start') else 'name'),
			end=self._node(end, 'object' if by in ('object', 'end') else 'name'), **attributes
		)

	def on_connect_bad(self, op):
		kind = op['kind']
		if kind == 'unhashable id':
			return self.graph.connect(start=op['start'], end=op['end'], id=['unhashable'])
		if kind == 'foreign':
			foreign = Graph()
			return self.graph.connect(start=op['start'], end=foreign.add_node(name='a foreign node'))
		return self.graph.connect(start=op['start'], end=BAD_NAMES[kind])

	def on_disconnect(self, op):
		edge = self.edges.get(tuple(op['edge']))
		if edge is None:
			raise KeyError(op['edge'])
		if op.get('by') == 'self':
			return edge.remove_self()
		return self.graph.disconnect(edge=edge)

	def on_remove(self, op):
		return self.graph.remove_node(node=self._node(op['name'], op.get('by', 'name')))

	def on_clear(self, op):
		if op['name'] not in self.nodes:
			raise KeyError(op['name'])
		return self.nodes[op['name']].remove_edges()

	def on_set(self, op):
		if 'name' in op:
			kind, item = 'node', self.nodes.get(op['name'])
		else:
			kind, item = 'edge', self.edges.get(tuple(op['edge']))
		if item is None:
			raise KeyError(str(op))
		field, value = op['field'], op.get('to')
		if field == 'frozen':
			item.freeze() if value else item.unfreeze()
		elif field == 'param':
			item[value[0]] = value[1]
		elif field == 'style':
			item.style = self.make_style(kind, value)
		else:
			setattr(item, field, value)

	def on_touch(self, op):
		item = self.nodes.get(op['name']) if 'name' in op else self.edges.get(tuple(op['edge']))
		if item is None:
			raise KeyError(str(op))
		value = item.value if op['field'] == 'value' else item.get(op['field'])
		if not isinstance(value, list):
			raise KeyError('nothing to touch')
		value.append(op['to'])

	def on_stale(self, op):
		if op['what'] == 'node':
			absent = [node for name, node in self.stale_nodes if name not in self.nodes]
			if len(absent) == 0:
				raise KeyError('no stale node')
			node = absent[op['which'] % len(absent)]
			if op['how'] == 'remove':
				return self.graph.remove_node(node=node)
			return self.graph.connect(start=node, end=node)
		if len(self.stale_edges) == 0:
			raise KeyError('no stale edge')
		edge = self.stale_edges[op['which'] % len(self.stale_edges)]
		if op['how'] == 'remove':
			return edge.remove_self()
		return self.graph.disconnect(edge=edge)

	def with_warnings(self, op, function):
		"""Calls function with the warning filters the simulated caller has set."""
		mode = op.get('warnings', 'record')
		with warnings.catch_warnings(record=mode == 'record') as caught:
			warnings.simplefilter('error' if mode == 'error' else 'always')
			if mode == 'hook':
				def hook(*args, **kwargs):
					raise CallerWarning('the warning hook of the caller')
				warnings.showwarning = hook
			return function(), caught

	def on_bad_call(self, op):
		graph, kind = self.graph, op['kind']
		if kind == 'disconnect nothing':
			return graph.disconnect(edge=None)
		if kind == 'disconnect a name':
			return graph.disconnect(edge='a')
		if kind == 'remove nothing':
			return graph.remove_node(node=None)
		if kind == 'remove a number':
			return graph.remove_node(node=1.5)
		if kind == 'remove a list':
			return graph.remove_node(node=list(self.nodes))
		if kind == 'connect one end':
			return graph.connect(start=op.get('name'))
		if kind == 'foreign node':
			return graph.add_node(name=Graph().add_node(name='a foreign node'))
		if kind == 'foreign node of the same name':
			return graph.add_node(name=Graph().add_node(name=op['name']))
		raise KeyError(kind)

	def on_append(self, op):
		return self.graph.append(self.description(op))

	def description(self, op):
		"""The dictionary that an append takes in."""
		def tuples(pairs):
			return {tuple(key) if isinstance(key, list) else key: copy.deepcopy(value) for key, value in pairs}

		def attributes(kind, attrs):
			result = {key: copy.copy(attrs[key]) for key in ('label', 'value', 'tooltip', 'id') if key in attrs}
			if attrs.get('style') is not None:
				result['style'] = self.make_style(kind, attrs['style'])
			result.update(copy.deepcopy(attrs.get('params') or {}))
			return result

		description = {
			'nodes': {name: attributes('node', attrs) for name, attrs in op['nodes']},
			'edges': [[start, end, attributes('edge', attrs)] for start, end, attrs in op['edges']]
		}
		for key in ('node_styles', 'edge_styles', 'node_colours', 'edge_colours'):
			if key in op:
				description[key] = tuples(op[key])
		description.update(copy.deepcopy(op.get('settings') or {}))
		return description

	def on_render(self, op):
		return self.graph.render(view=False)

	def predict(self, op):
		"""Applies op to the model: (accepted, reason)."""
		try:
			self.model.apply(op)
			return True, None
		except Refused as refusal:
			return False, str(refusal)

	def accepted(self, op, result):
		"""Keeps the objects that an accepted edit hands out, and those it makes stale."""
		kind = op['op']
		if kind in ('add', 'add_object', 'bring'):
			name = op['name']
			if name in self.nodes:
				check(result is self.nodes[name], 'wrong-object', f'{op} did not return the node it updated')
			else:
				check(isinstance(result, Node), 'wrong-object', f'{op} returned {short(result)}')
				self.nodes[name] = result
		elif kind == 'append':
			check(result is self.graph, 'wrong-object', f'append returned {short(result)}')
			for name, _ in op['nodes']:
				self.nodes[name] = self.graph.get_node(name)
			for start, end, attrs in op['edges']:
				self.edges[(start, end, attrs.get('id'))] = self.graph.edges_dict[(start, end, attrs.get('id'))]
		elif kind == 'connect':
			key = (op['start'], op['end'], op.get('id'))
			if key in self.edges:
				check(result is self.edges[key], 'wrong-object', f'{op} did not return the edge it updated')
			else:
				check(isinstance(result, Edge), 'wrong-object', f'{op} returned {short(result)}')
				self.edges[key] = result
		for key in [key for key in self.edges if key not in self.model.edges]:
			self.stale_edges.append(self.edges.pop(key))
		for name in [name for name in self.nodes if name not in self.model.nodes]:
			self.stale_nodes.append((name, self.nodes.pop(name)))

	def apply(self, op, verify=True):
		"""One edit on both sides."""
		accepted, reason = self.predict(op)
		warned = self.model.duplicate_warning
		result, error = call(lambda: self.with_warnings(op, lambda: self.perform(op)))
		if accepted:
			if error is not None:
				raise Violation(
					'refused-valid-edit', f'{op} raised {type(error).__name__}: {short(str(error), 300)}'
				)
			result, caught = result
			if op.get('warnings', 'record') == 'record':
				if warned:
					check(len(caught) > 0, 'missing-warning', f'{op} gave no warning')
				elif op.get('attrs', {}).get('policy') == 'ignore':
					check(len(caught) == 0, 'unwanted-warning', f'{op} warned although told to ignore')
			self.accepted(op, result)
			if self.ctx:
				self.ctx.count('op:' + op['op'])
		else:
			if error is None:
				raise Violation('accepted-invalid-edit', f'{op} should be refused ({reason}) but returned')
			if op.get('warnings') == 'hook' and reason == 'warning as error':
				check(
					isinstance(error, CallerWarning), 'error-lost',
					f'{op}: the error of the caller was replaced by {type(error).__name__}: {error}'
				)
			if self.ctx:
				self.ctx.fault('refused: ' + reason)
		if self.ctx:
			self.ctx.log(op, accepted, reason)
		return accepted

	# observation
	def observe(self):
		return must(lambda: observe(self.graph), 'observing the graph')

	def observe_fully(self):
		return must(lambda: observe_fully(self.graph), 'observing the graph')

	def verify(self, what=''):
		got = self.observe()
		compare_view(got, self.model, 'content', what)
		if self.ctx:
			self.ctx.state(sorted(got['nodes'], key=repr), sorted(got['edges'], key=repr))
		return got

	def verify_queries(self, what=''):
		must(lambda: self._verify_queries(what), f'{what}: queries')

	def _verify_queries(self, what):
		graph, model = self.graph, self.model
		kind = 'query'

		def same(got, expected, question):
			if got != expected:
				expect_equal(got, expected, kind, f'{what}: {question}')

		def names(nodes):
			return [node.name for node in nodes]

		def keys(edges):
			return [edge.id for edge in edges]

		same(names(graph.nodes), list(model.nodes), 'nodes')
		same(list(graph.nodes_dict), list(model.nodes), 'nodes_dict')
		same(sorted(map(repr, keys(graph.edges))), sorted(map(repr, model.edges)), 'edges')
		same(sorted(map(repr, graph.edges_dict)), sorted(map(repr, model.edges)), 'edges_dict')
		for key, edge in graph.edges_dict.items():
			check(edge is self.edges[key], kind, f'{what}: edges_dict[{key}] is another object')
		for edge in graph.edges:
			check(edge is self.edges[edge.id], kind, f'{what}: {edge.id} in edges is another object')
			same((edge.start.name, edge.end.name, edge.raw_id), edge.id, f'ends of {edge.id}')
			check(edge.start is self.nodes[edge.start.name], kind, f'{what}: start of {edge.id} is another object')
			check(edge.end is self.nodes[edge.end.name], kind, f'{what}: end of {edge.id} is another object')
			check(edge.graph is graph, kind, f'{what}: graph of {edge.id}')
		parents = {name: model.parents(name) for name in model.nodes}
		children = {name: model.children(name) for name in model.nodes}
		same(names(graph.leaves), [n for n in model.nodes if not children[n]], 'leaves')
		same(names(graph.absolute_roots), [n for n in model.nodes if not parents[n]], 'absolute_roots')
		same(
			{name: style.get_graphviz_str() for name, style in graph.node_styles.items()},
			{name: style_text('node', item.style) for name, item in model.nodes.items() if item.style is not None},
			'node_styles'
		)
		same(
			{key: style.get_graphviz_str() for key, style in graph.edge_styles.items()},
			{key: style_text('edge', item.style) for key, item in model.edges.items() if item.style is not None},
			'edge_styles'
		)
		positions = {name: i for i, name in enumerate(model.nodes)}
		for name in model.nodes:
			node = graph.get_node(name)
			check(node is self.nodes[name], kind, f'{what}: get_node({name!r}) is another object')
			check(graph.get_node(node) is node, kind, f'{what}: get_node(node {name!r})')
			same(graph.get_node_name(name), name, f'get_node_name({name!r})')
			same(graph.get_node_name(node), name, f'get_node_name(node {name!r})')
			check(name in graph and node in graph, kind, f'{what}: {name!r} in graph')
			check(node.graph is graph, kind, f'{what}: graph of {name!r}')
			item = model.nodes[name]
			same(node.label, str(item.label if item.label else name), f'label of {name!r}')
			same((node.id, node.name), (name, name), f'id of {name!r}')
			out, inn = model.outward(name), model.inward(name)
			for argument in (name, node):
				same(keys(graph.get_outward_edges(argument)), out, f'get_outward_edges({name!r})')
				same(keys(graph.get_inward_edges(argument)), inn, f'get_inward_edges({name!r})')
				same(
					sorted(set(map(repr, keys(graph.get_edges(argument))))), sorted(set(map(repr, out + inn))),
					f'get_edges({name!r})'
				)
				same(names(graph.get_children(argument)), children[name], f'get_children({name!r})')
				same(names(graph.get_parents(argument)), parents[name], f'get_parents({name!r})')
				same(graph.num_children(argument), len(children[name]), f'num_children({name!r})')
				same(graph.num_parents(argument), len(parents[name]), f'num_parents({name!r})')
				same(bool(graph.has_children(argument)), bool(children[name]), f'has_children({name!r})')
				same(bool(graph.has_parents(argument)), bool(parents[name]), f'has_parents({name!r})')
				siblings = {c for p in parents[name] for c in children[p]} - {name}
				spouses = {p for c in children[name] for p in parents[c]} - {name}
				got = names(graph.get_siblings(argument))
				same(sorted(got, key=repr), sorted(siblings, key=repr), f'get_siblings({name!r})')
				same(graph.num_siblings(argument), len(siblings), f'num_siblings({name!r})')
				same(bool(graph.has_siblings(argument)), bool(siblings), f'has_siblings({name!r})')
				got = names(graph.get_spouses(argument))
				same(sorted(got, key=repr), sorted(spouses, key=repr), f'get_spouses({name!r})')
				same(graph.num_spouses(argument), len(spouses), f'num_spouses({name!r})')
				same(bool(graph.has_spouses(argument)), bool(spouses), f'has_spouses({name!r})')
			same(sorted(names(node.siblings), key=repr), sorted(siblings, key=repr), f'siblings of {name!r}')
			same(sorted(names(node.co_parents), key=repr), sorted(spouses, key=repr), f'co_parents of {name!r}')
			same(names(node.children), children[name], f'children of {name!r}')
			same(names(node.parents), parents[name], f'parents of {name!r}')
			same(bool(node.has_children()), bool(children[name]), f'has_children of {name!r}')
			same(bool(node.has_parents()), bool(parents[name]), f'has_parents of {name!r}')
			same(keys(node.outward_edges), out, f'outward_edges of {name!r}')
			same(keys(node.inward_edges), inn, f'inward_edges of {name!r}')
			same(list(node.outward_edge_ids), out, f'outward_edge_ids of {name!r}')
			same(list(node.inward_edge_ids), inn, f'inward_edge_ids of {name!r}')
			same(list(node.outward_edges_dict), out, f'outward_edges_dict of {name!r}')
			same(list(node.inward_edges_dict), inn, f'inward_edges_dict of {name!r}')
			same(node.num_outward_edges, len(out), f'num_outward_edges of {name!r}')
			got = keys(node.edges)
			same(sorted(map(repr, got)), sorted(set(map(repr, out + inn))), f'edges of {name!r}')
			for key in out:
				check(node.get_outward_edge(key) is self.edges[key], kind, f'{what}: get_outward_edge({key})')
			for key in inn:
				check(node.get_inward_edge(key) is self.edges[key], kind, f'{what}: get_inward_edge({key})')
			for parent in set(parents[name]):
				if len(set(children[parent])) == len(children[parent]):
					rank = sorted(children[parent], key=positions.get).index(name)
					same(node.get_child_rank(self.nodes[parent]), rank, f'rank of {name!r} under {parent!r}')
			tooltip = model.nodes[name].tooltip
			check(
				('tooltip="' in node.get_graphviz_str()) == (tooltip is not None)
				and (tooltip is None or f'tooltip="{tooltip}"' in node.get_graphviz_str()),
				kind, f'{what}: tooltip of {name!r}'
			)
		same(names(sorted(graph.nodes)), list(model.nodes), 'nodes sorted by age')
		for key, item in model.edges.items():
			text = self.edges[key].get_graphviz_str()
			check(
				('tooltip="' in text) == (item.tooltip is not None)
				and (item.tooltip is None or f'tooltip="{item.tooltip}"' in text),
				kind, f'{what}: tooltip of {key}'
			)
		for name, node in self.stale_nodes:
			if name not in model.nodes:
				check(name not in graph, kind, f'{what}: removed node {name!r} is in the graph')
			check(node not in graph, kind, f'{what}: a removed node object {name!r} is in the graph')

