"""Executable reference model of a graph under edits.  Knows nothing about the implementation."""

FIELDS = ('label', 'value', 'tooltip', 'params', 'style')

BAD_STYLES = {
	'str': 'red', 'int': 5, 'keyword': {'no_such_setting': 1}, 'colour': {'colour': 'no such colour'},
	'list': ['red']
}
BAD_NAMES = {'none': None, 'float': 1.5, 'list': ['a'], 'dict': {}, 'tuple': ('a', 'b')}


class Item:
	__slots__ = ('label', 'value', 'style', 'tooltip', 'params', 'frozen')

	def __init__(self, attrs):
		self.label = attrs.get('label')
		self.value = attrs.get('value')
		self.style = attrs.get('style')
		self.tooltip = attrs.get('tooltip')
		self.params = dict(attrs.get('params') or {})
		self.frozen = False

	def clone(self):
		result = Item({})
		for key in Item.__slots__:
			value = getattr(self, key)
			setattr(result, key, dict(value) if key == 'params' else value)
		return result

	def view(self):
		return {
			'label': self.label, 'value': self.value, 'style': style_view(self.style), 'tooltip': self.tooltip,
			'params': dict(self.params), 'frozen': self.frozen
		}


def style_view(style):
	return None if style is None else {k: v for k, v in style.items() if k not in ('as', 'shared')}


def is_bad(style):
	return style is not None and 'bad' in style


class Refused(Exception):
	pass


class Model:
	def __init__(self, overwrite=False):
		self.overwrite = overwrite
		self.nodes = {}
		self.edges = {}  # key -> Item, in order of connection
		self.removed = {}  # name -> Item, of the node that was removed last
		self.duplicate_warning = False

	def clone(self):
		result = Model(self.overwrite)
		result.nodes = {name: item.clone() for name, item in self.nodes.items()}
		result.edges = {key: item.clone() for key, item in self.edges.items()}
		return result

	# questions
	def outward(self, name):
		return [key for key in self.edges if key[0] == name]

	def inward(self, name):
		return [key for key in self.edges if key[1] == name]

	def children(self, name):
		return [key[1] for key in self.outward(name)]

	def parents(self, name):
		return [key[0] for key in self.inward(name)]

	def view(self):
		return {
			'nodes': {name: item.view() for name, item in self.nodes.items()},
			'edges': {key: item.view() for key, item in self.edges.items()},
			'outward': {name: self.outward(name) for name in self.nodes},
			'inward': {name: self.inward(name) for name in self.nodes}
		}

	# edits
	def _update(self, item, attrs):
		if attrs.get('value') is not None and item.frozen:
			raise Refused('frozen')
		style = attrs.get('style')
		if style is not None:
			if item.style is not None and not self.overwrite:
				raise Refused('style overwrite')
			if is_bad(style):
				raise Refused('bad style')
			item.style = style
		if attrs.get('label') is not None:
			item.label = attrs['label']
		if attrs.get('value') is not None:
			item.value = attrs['value']

	def _duplicate(self, attrs, warnings):
		policy = attrs.get('policy', 'warn')
		if policy == 'ignore':
			return
		if policy == 'warn':
			if warnings != 'record':
				raise Refused('warning as error')
			self.duplicate_warning = True
			return
		raise Refused('duplicate')

	def apply(self, op):
		"""Applies one edit, or raises Refused and changes nothing."""
		self.duplicate_warning = False
		return getattr(self, 'do_' + op['op'])(op)

	def do_add(self, op):
		attrs = op.get('attrs', {})
		name = op['name']
		if name in self.nodes:
			self._duplicate(attrs, op.get('warnings', 'record'))
			self._update(self.nodes[name], attrs)
		else:
			if is_bad(attrs.get('style')):
				raise Refused('bad style')
			self.nodes[name] = Item(attrs)

	def do_add_object(self, op):
		if op['name'] not in self.nodes:
			raise Refused('no such node')

	def do_bring(self, op):
		"""Adds a node (an object) that was removed from this graph, or from another one."""
		name = op['name']
		if op['from'] == 'donor':
			if name in self.nodes:
				raise Refused('no such node')
			self.nodes[name] = Item(op['attrs'])
		else:
			if name in self.nodes or name not in self.removed:
				raise Refused('no such node')
			self.nodes[name] = self.removed.pop(name)

	def do_add_bad(self, op):
		raise Refused('bad name')

	def do_connect(self, op):
		attrs = op.get('attrs', {})
		key = (op['start'], op['end'], op.get('id'))
		if key[0] not in self.nodes or key[1] not in self.nodes:
			raise Refused('no such node')
		if key in self.edges:
			self._duplicate(attrs, op.get('warnings', 'record'))
			self._update(self.edges[key], attrs)
		else:
			if is_bad(attrs.get('style')):
				raise Refused('bad style')
			self.edges[key] = Item(attrs)

	def do_connect_bad(self, op):
		raise Refused('bad end or id')

	def do_disconnect(self, op):
		key = tuple(op['edge'])
		if key not in self.edges:
			raise Refused('no such edge')
		del self.edges[key]

	def do_remove(self, op):
		name = op['name']
		if name not in self.nodes:
			raise Refused('no such node')
		self.removed[name] = self.nodes.pop(name)
		for key in [key for key in self.edges if name in key[:2]]:
			del self.edges[key]

	def do_clear(self, op):
		name = op['name']
		if name not in self.nodes:
			raise Refused('no such node')
		for key in [key for key in self.edges if name in key[:2]]:
			del self.edges[key]

	def do_set(self, op):
		"""Sets a field of a node or an edge directly."""
		if 'name' in op:
			item = self.nodes.get(op['name'])
		else:
			item = self.edges.get(tuple(op['edge']))
		if item is None:
			raise Refused('no such item')
		field, value = op['field'], op.get('to')
		if field == 'value':
			if item.frozen:
				raise Refused('frozen')
			item.value = value
		elif field == 'label':
			item.label = value
		elif field == 'style':
			if item.style is not None and not self.overwrite:
				raise Refused('style overwrite')
			if is_bad(value):
				raise Refused('bad style')
			item.style = value
		elif field == 'frozen':
			item.frozen = value
		elif field == 'param':
			item.params[value[0]] = value[1]

	def do_touch(self, op):
		"""The caller changes a list that it had stored as the value, or as a parameter, of a node or an edge."""
		item = self.nodes.get(op['name']) if 'name' in op else self.edges.get(tuple(op['edge']))
		if item is None:
			raise Refused('no such item')
		value = item.value if op['field'] == 'value' else item.params.get(op['field'])
		if not isinstance(value, list):
			raise Refused('nothing to touch')
		if op['field'] == 'value':
			item.value = value + [op['to']]
		else:
			item.params[op['field']] = value + [op['to']]

	def do_stale(self, op):
		"""Uses an object whose edge or node was removed."""
		raise Refused('stale')

	def do_bad_call(self, op):
		raise Refused('bad call')

	def do_append(self, op):
		"""Takes in a description that only has new nodes and new edges."""
		names = [name for name, _ in op['nodes']]
		known = set(self.nodes) | set(names)
		keys = [(start, end, attrs.get('id')) for start, end, attrs in op['edges']]
		if len(set(names)) < len(names) or len(set(keys)) < len(keys):
			raise Refused('not applicable')
		if any(name in self.nodes for name in names) or any(key in self.edges for key in keys):
			raise Refused('not applicable')
		if any(start not in known or end not in known for start, end, _ in keys):
			raise Refused('not applicable')
		for name, attrs in op['nodes']:
			self.nodes[name] = Item(attrs)
		for key, (_, _, attrs) in zip(keys, op['edges']):
			self.edges[key] = Item(attrs)

	def do_unsure(self):
		"""A render did not finish: some items have a style now."""
		for item in list(self.nodes.values()) + list(self.edges.values()):
			item.style = {'unsure': True}

	def do_render(self, op):
		"""Rendering gives a style to everything (only that it has one is known here)."""
		for item in list(self.nodes.values()) + list(self.edges.values()):
			item.style = {'rendered': True}
