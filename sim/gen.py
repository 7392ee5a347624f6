"""Seeded generation of edit histories.

Every run draws its own configuration (swarm style): sizes, names, weights of the kinds of edits, share of refused ones.
The model is used to aim at edits that mean something; the executor accepts any list of edits, so that shrinking is free.
"""
from .model import Model, Refused

NAME_POOLS = (
	list('abcdefgh'), ['n1', 'n2', 'n3', 'n4', 'n5', 'n6', 'n7', 'n8'], [1, 2, 3, 4, 5, 6, 7, 8],
	['hub', 'b', 'leaf', 'x1', 'zz', 'Q', 'r2', 'mid'], [0, 1, 2, 3, 4, 5, 6, 7], list('hgfedcba'),
	['', 'a', '10', '9', 'x y', 'B', '\u00e9', 'a_long_name_for_a_node'], [-1, 0, 10, 9, 100, 7, 2, 3], ['', 1, 'b', 0, 'd', 22, 'f', -5]
)
TWINS = [1, '1', 2, '2', '3', 3, 4, '4']
MANY = [f'n{i}' for i in range(1, 17)]
COLOURS = ('red', 'blue', 'green', 'orange', 'purple', '#123456')
IDS = (None, None, None, 'k', 'm', 0, 1, '1', 7, '', -1)
LABELS = ('L1', 'L2', 'Alpha', 'Beta', 'a b')
VALUES = (0, 1, 2, 3, 10, -4, 2.5, 'v', 'w', True, '', False)


def configuration(rng, max_nodes=7, numbers_only=False):
	weights = {
		'add': rng.choice((2, 4, 8)), 'connect': rng.choice((4, 8, 12)), 'disconnect': rng.choice((0, 1, 3)),
		'remove': rng.choice((0, 1, 2)), 'clear': rng.choice((0, 0, 1)), 'set': rng.choice((0, 1, 3)),
		'add_object': rng.choice((0, 1)), 'stale': rng.choice((0, 1))
	}
	return {
		'names': rng.choice(NAME_POOLS)[:rng.randint(2, max_nodes)], 'weights': weights,
		'refuse': rng.choice((0.0, 0.1, 0.3)), 'styles': rng.choice((0.0, 0.0, 0.3)), 'attributes': rng.choice((0.1, 0.6)),
		'loops': rng.choice((0.0, 0.2, 1.0)), 'parallel': rng.random() < 0.4, 'overwrite': rng.random() < 0.4,
		'numbers_only': numbers_only, 'blank': rng.random() < 0.2
	}


def style(rng, kind, bad=False):
	if bad:
		return {'bad': rng.choice(('str', 'int', 'keyword', 'colour', 'list'))}
	result = {'as': rng.choice(('dict', 'object'))}
	if rng.random() < 0.8:
		result['colour'] = rng.choice(COLOURS)
	if rng.random() < 0.4:
		result['text_size'] = rng.choice((7, 9, 14))
	if kind == 'node' and rng.random() < 0.4:
		result['shape'] = rng.choice(('circle', 'box', 'ellipse'))
	if kind == 'edge' and rng.random() < 0.4:
		result['line_width'] = rng.choice((2, 3))
	if rng.random() < 0.4:
		more = {
			'opacity': (0.5, 1), 'font': ('courier', 'times'), 'text_colour': COLOURS
		}
		if kind == 'node':
			more.update(fill_colour=COLOURS, border_colour=COLOURS, shape_style=('filled', 'dashed'), lighter_fill=(True, False, False))
		else:
			more.update(arrow_size=(0.7, 2), label_style=('above',))
		for key in rng.sample(sorted(more), rng.randint(1, 3)):
			result[key] = rng.choice(more[key])
	return result


def labels(config):
	return LABELS + ('', '') if config.get('blank') else LABELS


def attributes(rng, config, kind, bad_style=False):
	attrs = {}
	p = config['attributes']
	if rng.random() < p:
		attrs['label'] = rng.choice(labels(config))
	if rng.random() < p:
		attrs['value'] = rng.choice(VALUES[:7] if config.get('numbers_only') else VALUES)
	if config.get('mutable') and rng.random() < 0.3:
		attrs['value'] = [rng.randint(0, 9)]
	if config.get('mutable') and rng.random() < 0.2:
		attrs['params'] = {'p': [rng.randint(0, 9)]}
	elif rng.random() < p / 4:
		attrs['params'] = {rng.choice(('p', 'q')): rng.choice((1, 2, 'x'))}
	if rng.random() < p / 4:
		attrs['tooltip'] = rng.choice(('tip', 'other tip'))
	if bad_style:
		attrs['style'] = style(rng, kind, bad=True)
	elif rng.random() < config['styles']:
		attrs['style'] = style(rng, kind)
	return attrs


def valid(rng, config, model, kind):
	names = list(model.nodes)
	fresh = [name for name in config['names'] if name not in model.nodes]
	if kind == 'add':
		attrs = attributes(rng, config, 'node')
		if fresh and rng.random() < 0.85:
			return {'op': 'add', 'name': rng.choice(fresh), 'attrs': attrs}
		if names:
			attrs['policy'] = rng.choice(('ignore', 'ignore', 'warn'))
			name = rng.choice(names)
			if model.nodes[name].style is not None and not config['overwrite']:
				attrs.pop('style', None)
			return {'op': 'add', 'name': name, 'attrs': attrs}
	elif kind == 'connect' and names:
		attrs = attributes(rng, config, 'edge')
		start, end = rng.choice(names), rng.choice(names)
		if start == end and rng.random() >= config['loops']:
			return None
		if names.index(start) > names.index(end) and rng.random() >= config['loops']:
			start, end = end, start
		edge_id = rng.choice(IDS) if config['parallel'] else None
		key = (start, end, edge_id)
		if key in model.edges:
			attrs['policy'] = rng.choice(('ignore', 'ignore', 'warn'))
			if model.edges[key].style is not None and not config['overwrite']:
				attrs.pop('style', None)
		return {
			'op': 'connect', 'start': start, 'end': end, 'id': edge_id, 'attrs': attrs,
			'by': rng.choice(('name', 'object', 'start', 'end', 'to', 'from'))
		}
	elif kind == 'disconnect' and model.edges:
		return {'op': 'disconnect', 'edge': list(rng.choice(list(model.edges))), 'by': rng.choice(('graph', 'self'))}
	elif kind == 'remove' and names:
		return {'op': 'remove', 'name': rng.choice(names), 'by': rng.choice(('name', 'object'))}
	elif kind == 'clear' and names:
		return {'op': 'clear', 'name': rng.choice(names)}
	elif kind == 'add_object' and names:
		return {'op': 'add_object', 'name': rng.choice(names)}
	elif kind == 'bring':
		removed = [name for name in model.removed if name not in model.nodes]
		if removed and rng.random() < 0.6:
			return {'op': 'bring', 'name': rng.choice(removed), 'from': 'removed'}
		if fresh:
			attrs = attributes(rng, config, 'node')
			return {'op': 'bring', 'name': rng.choice(fresh), 'from': 'donor', 'others': rng.randint(0, 12), 'attrs': attrs}
	elif kind == 'set':
		return direct(rng, config, model)
	return None


def target(rng, model):
	if model.edges and rng.random() < 0.5:
		return {'edge': list(rng.choice(list(model.edges)))}
	if model.nodes:
		return {'name': rng.choice(list(model.nodes))}
	return None


def direct(rng, config, model, bad=False):
	where = target(rng, model)
	if where is None:
		return None
	kind = 'node' if 'name' in where else 'edge'
	field = rng.choice(('label', 'value', 'style', 'frozen', 'param'))
	if field == 'label':
		to = rng.choice(labels(config))
	elif field == 'value':
		to = rng.choice(VALUES[:7] if config.get('numbers_only') else VALUES)
	elif field == 'style':
		to = style(rng, kind, bad=bad)
	elif field == 'frozen':
		to = rng.random() < 0.6
	else:
		to = [rng.choice(('p', 'q')), rng.choice((1, 2, 'x'))]
	return {'op': 'set', **where, 'field': field, 'to': to}


def append(rng, config, model):
	"""A description with new nodes and edges, and styles for some of what is (or once was) in the graph."""
	fresh = [name for name in config['names'] if name not in model.nodes]
	rng.shuffle(fresh)
	nodes = [[name, attributes(rng, config, 'node')] for name in fresh[:rng.choice((0, 0, 1, 2))]]
	known = list(model.nodes) + [name for name, _ in nodes]
	edges, keys = [], set(model.edges)
	for _ in range(rng.choice((0, 1, 2))):
		if not known:
			break
		start, end = rng.choice(known), rng.choice(known)
		key = (start, end, rng.choice(IDS) if config['parallel'] else None)
		if key in keys or (start == end and rng.random() >= config['loops']):
			continue
		keys.add(key)
		attrs = attributes(rng, config, 'edge')
		if key[2] is not None:
			attrs['id'] = key[2]
		edges.append([start, end, attrs])
	op = {'op': 'append', 'nodes': nodes, 'edges': edges}
	pool = config['names']
	if rng.random() < 0.6:
		op['node_styles'] = [
			[rng.choice(pool), rng.choice(({'text_size': 17}, {'shape': 'diamond'}, {'font': 'times'}))] for _ in range(rng.randint(1, 2))
		]
	if config['overwrite']:
		ids = [[start, end, attrs.get('id')] for start, end, attrs in edges]
		if ids and rng.random() < 0.5:
			op['edge_styles'] = [[rng.choice(ids), style(rng, 'edge')]]
			op['edge_styles'][0][1].pop('as')
		if ids and rng.random() < 0.4:
			op['edge_colours'] = [[rng.choice(ids), rng.choice(COLOURS)]]
		if rng.random() < 0.4:
			op['node_colours'] = [[rng.choice(pool), rng.choice(COLOURS)]]
	return op


def touch(rng, model):
	"""The caller changes a list it had stored in the graph."""
	found = []
	for where, item in [({'name': n}, i) for n, i in model.nodes.items()] + [({'edge': list(k)}, i) for k, i in model.edges.items()]:
		if isinstance(item.value, list):
			found.append(dict(where, field='value'))
		found.extend(dict(where, field=key) for key, value in item.params.items() if isinstance(value, list))
	if not found:
		return None
	return {'op': 'touch', **rng.choice(found), 'to': rng.randint(10, 99)}


REFUSALS = (
	'duplicate node', 'duplicate node', 'duplicate edge', 'duplicate edge', 'warning', 'warning', 'unknown end',
	'bad name', 'bad end', 'bad style', 'bad style', 'bad style edge', 'forbidden style', 'frozen', 'frozen',
	'unknown node', 'unknown edge', 'stale', 'stale'
)


def refused(rng, config, model, kind=None):
	"""An edit that should be refused (if the state allows the chosen kind)."""
	names = list(model.nodes)
	kind = kind or rng.choice(REFUSALS)
	rich = dict(config, attributes=0.7, styles=0.4)
	if kind == 'duplicate node' and names:
		return {
			'op': 'add', 'name': rng.choice(names),
			'attrs': dict(attributes(rng, rich, 'node'), policy=rng.choice(('error', 'error', 'bogus')))
		}
	if kind == 'duplicate edge' and model.edges:
		start, end, edge_id = rng.choice(list(model.edges))
		return {
			'op': 'connect', 'start': start, 'end': end, 'id': edge_id, 'by': rng.choice(('name', 'object', 'to')),
			'attrs': dict(attributes(rng, rich, 'edge'), policy=rng.choice(('error', 'error', 'bogus')))
		}
	if kind == 'warning':
		mode = rng.choice(('error', 'hook'))
		if model.edges and rng.random() < 0.5:
			start, end, edge_id = rng.choice(list(model.edges))
			return {
				'op': 'connect', 'start': start, 'end': end, 'id': edge_id, 'by': 'name', 'warnings': mode,
				'attrs': dict(attributes(rng, rich, 'edge'), policy='warn')
			}
		if names:
			return {
				'op': 'add', 'name': rng.choice(names), 'warnings': mode,
				'attrs': dict(attributes(rng, rich, 'node'), policy='warn')
			}
	if kind == 'unknown end' and names:
		ends = [rng.choice(names), 'unknown']
		rng.shuffle(ends)
		return {
			'op': 'connect', 'start': ends[0], 'end': ends[1], 'id': rng.choice(IDS), 'by': 'name',
			'attrs': attributes(rng, rich, 'edge')
		}
	if kind == 'bad name':
		return {'op': 'add_bad', 'kind': rng.choice(('none', 'float', 'list', 'dict', 'tuple')), 'attrs': {}}
	if kind == 'bad end' and len(names) > 1:
		return {
			'op': 'connect_bad', 'kind': rng.choice(('none', 'float', 'list', 'unhashable id', 'foreign', 'unhashable id')),
			'start': rng.choice(names), 'end': rng.choice(names)
		}
	if kind == 'bad style':
		pool = config['names'] if rng.random() < 0.6 or not names else names
		return {
			'op': 'add', 'name': rng.choice(pool), 'attrs': dict(attributes(rng, rich, 'node', bad_style=True), policy='ignore')
		}
	if kind == 'bad style edge' and names:
		edge_id = rng.choice(IDS)
		start, end = rng.choice(names), rng.choice(names)
		if model.edges and rng.random() < 0.5:
			start, end, edge_id = rng.choice(list(model.edges))
		return {
			'op': 'connect', 'start': start, 'end': end, 'id': edge_id, 'by': 'name',
			'attrs': dict(attributes(rng, rich, 'edge', bad_style=True), policy='ignore')
		}
	if kind == 'forbidden style' and not config['overwrite']:
		styled = [{'name': n} for n, i in model.nodes.items() if i.style is not None]
		styled += [{'edge': list(k)} for k, i in model.edges.items() if i.style is not None]
		if styled:
			where = rng.choice(styled)
			item = 'node' if 'name' in where else 'edge'
			if rng.random() < 0.5:
				return {'op': 'set', **where, 'field': 'style', 'to': style(rng, item)}
			attrs = dict(attributes(rng, rich, item), style=style(rng, item), policy='ignore')
			if item == 'node':
				return {'op': 'add', 'name': where['name'], 'attrs': attrs}
			start, end, edge_id = where['edge']
			return {'op': 'connect', 'start': start, 'end': end, 'id': edge_id, 'by': 'name', 'attrs': attrs}
	if kind == 'frozen':
		frozen = [{'name': n} for n, i in model.nodes.items() if i.frozen]
		frozen += [{'edge': list(k)} for k, i in model.edges.items() if i.frozen]
		if frozen:
			where = rng.choice(frozen)
			item = 'node' if 'name' in where else 'edge'
			if rng.random() < 0.3:
				return {'op': 'set', **where, 'field': 'value', 'to': rng.choice(VALUES)}
			attrs = dict(attributes(rng, rich, item), value=rng.choice(VALUES), policy='ignore')
			if item == 'node':
				return {'op': 'add', 'name': where['name'], 'attrs': attrs}
			start, end, edge_id = where['edge']
			return {'op': 'connect', 'start': start, 'end': end, 'id': edge_id, 'by': 'name', 'attrs': attrs}
	if kind == 'unknown node':
		return {'op': 'remove', 'name': 'unknown', 'by': 'name'}
	if kind == 'unknown edge' and names:
		return {'op': 'disconnect', 'edge': [rng.choice(names), rng.choice(names), 'unknown'], 'by': 'graph'}
	if kind == 'stale':
		return {
			'op': 'stale', 'what': rng.choice(('node', 'edge', 'edge')), 'how': rng.choice(('remove', 'disconnect')),
			'which': rng.randint(0, 5)
		}
	return None


def next_op(rng, config, model):
	for _ in range(20):
		if rng.random() < config['refuse']:
			op = refused(rng, config, model)
		else:
			kinds = list(config['weights'])
			kind = rng.choices(kinds, [config['weights'][k] for k in kinds])[0]
			op = refused(rng, config, model, 'stale') if kind == 'stale' else valid(rng, config, model, kind)
		if op is not None:
			return op
	return {'op': 'add', 'name': config['names'][0], 'attrs': {'policy': 'ignore'}}


def history(rng, config, length, model=None):
	"""A list of edits, and the model after them."""
	model = model if model is not None else Model(config['overwrite'])
	ops = []
	while len(ops) < length:
		op = next_op(rng, config, model)
		ops.append(op)
		try:
			model.apply(op)
		except Refused:
			continue
		# something else takes its place, so that the sizes are what they were
		if op['op'] in ('disconnect', 'remove') and rng.random() < 0.4:
			for _ in range(5):
				op = valid(rng, config, model, 'connect' if op['op'] == 'disconnect' else 'add')
				if op is None:
					break
				if op.get('name') not in model.nodes and (op.get('start'), op.get('end'), op.get('id')) not in model.edges:
					ops.append(op)
					model.apply(op)
					break
	return ops, model


def seldom(rng, ops):
	"""The graph is looked at after every edit, or only after some: whatever it remembers from the last look may have aged."""
	p = rng.choice((1.0, 1.0, 0.5, 0.2))
	for i, op in enumerate(ops):
		if rng.random() >= p:
			ops[i] = dict(op, look=False)
	return ops


def grow(rng, config, nodes, edges, model=None):
	"""A short history that only adds: a graph of about this size."""
	model = model if model is not None else Model(config['overwrite'])
	ops = []
	names = list(config['names'])
	rng.shuffle(names)
	for name in names[:nodes]:
		ops.append({'op': 'add', 'name': name, 'attrs': dict(attributes(rng, config, 'node'), policy='ignore')})
		model.apply(ops[-1])
	for _ in range(edges):
		op = valid(rng, config, model, 'connect')
		if op is not None:
			try:
				model.apply(op)
				ops.append(op)
			except Refused:
				pass
	return ops, model


def arguments(rng, rich=0.5):
	"""Settings of a graph, other than style_overwrite_allowed."""
	result = {}

	def maybe(key, values, p=0.3):
		if rng.random() < p * rich * 2:
			result[key] = rng.choice(values)

	maybe('strict', (True, False))
	maybe('ordering', (True, False))
	maybe('direction', ('LR', 'TB', 'RL'))
	maybe('stylist', ('pensieve', 'random', 'random'))
	maybe('colour_scheme', ('pensieve2', 'pensieve', 'pastel15'))
	maybe('label', ('a title', None, 'T'))
	maybe('tooltip', ('graph tip',), 0.15)
	maybe('label_url', (None, 'https://example.org'), 0.15)
	maybe('background_colour', ('white', '#EEEEEE'), 0.2)
	maybe('font', ('courier',), 0.15)
	maybe('font_size', (12,), 0.15)
	maybe('label_location', ('top',), 0.15)
	maybe('label_colour', ('black',), 0.15)
	maybe('label_background_colour', ('yellow',), 0.1)
	maybe('node_label_converter', ('upper', 'bracket', 'length'), 0.2)
	maybe('edge_label_converter', ('upper', 'bracket'), 0.15)
	maybe('node_style', ({'shape': 'circle'}, {'text_size': 13}, {'colour': 'green'}, {'shape': 'auto'}), 0.2)
	maybe('edge_style', ({'line_width': 3}, {'colour': 'blue'}), 0.2)
	maybe('splines', ('ortho',), 0.15)
	return result
