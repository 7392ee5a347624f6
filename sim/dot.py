"""Reads DOT text (as much of the language as the library can produce) and compares it with the reference model."""
import re

from .core import Violation, check, expect_equal

_token = re.compile(r'\s*(?:("(?:[^"\\]|\\.)*")|(->)|([\[\]{}=;,])|(<)|([^\s\[\]{}=;,"<>-][^\s\[\]{}=;,"<>]*|-(?!>)[\w.]+))', re.S)


def tokens(text):
	position = 0
	text = text.rstrip()
	while position < len(text):
		match = _token.match(text, position)
		if match is None:
			raise Violation('bad-dot', f'not DOT at {position}: {text[position:position + 60]!r}')
		position = match.end()
		if match.group(4):
			depth = 1
			start = position
			while depth:
				if position >= len(text):
					raise Violation('bad-dot', 'unclosed HTML label')
				depth += {'<': 1, '>': -1}.get(text[position], 0)
				position += 1
			yield ('text', text[start:position - 1])
		elif match.group(1):
			yield ('text', re.sub(r'\\"', '"', match.group(1)[1:-1]))
		elif match.group(2):
			yield ('arrow', '->')
		elif match.group(3):
			yield (match.group(3), match.group(3))
		else:
			yield ('text', match.group(5))


def parse(text):
	"""Returns {'strict':, 'nodes': [(name, attributes)], 'edges': [(start, end, attributes)], 'graph': attributes}."""
	stream = list(tokens(text)) + [('end', '')]
	position = 0
	result = {'strict': False, 'nodes': [], 'edges': [], 'graph': {}}

	def peek(n=0):
		return stream[min(position + n, len(stream) - 1)]

	def take(kind=None):
		nonlocal position
		token = peek()
		if kind is not None and token[0] != kind:
			raise Violation('bad-dot', f'{kind!r} expected, not {token[1]!r} (token {position} of {text!r})')
		position += 1
		return token[1]

	def attributes():
		found = {}
		while peek()[0] == '[':
			take('[')
			while peek()[0] != ']':
				key = take('text')
				take('=')
				found[key] = take('text')
				if peek()[0] in (',', ';'):
					take()
			take(']')
		return found

	def statements():
		while peek()[0] not in ('}', 'end'):
			if peek()[0] == ';':
				take()
			elif peek()[0] == '{':
				take('{')
				statements()
				take('}')
			else:
				name = take('text')
				if peek()[0] == '=':
					take('=')
					result['graph'][name] = take('text')
				elif peek()[0] == 'arrow':
					take('arrow')
					end = take('text')
					result['edges'].append((name, end, attributes()))
				elif name in ('graph', 'node', 'edge') and peek()[0] == '[':
					found = attributes()
					if name == 'graph':
						result['graph'].update(found)
				else:
					result['nodes'].append((name, attributes()))

	if peek()[1] == 'strict':
		take()
		result['strict'] = True
	if take('text') != 'digraph':
		raise Violation('bad-dot', 'not a digraph')
	if peek()[0] == 'text':
		take()
	take('{')
	statements()
	take('}')
	take('end')
	return result


STYLE = ('color', 'fillcolor', 'fontcolor', 'fontname', 'fontsize', 'penwidth', 'shape', 'style')


def expected_labels(model, arguments):
	"""What the DOT text must show: [(name, label)] and sorted [(start, end, label or None)]."""
	convert = {
		None: str, 'upper': lambda text: str(text).upper(), 'bracket': lambda text: f'({text})',
		'length': lambda text: str(len(str(text)))
	}
	on_node = convert[arguments.get('node_label_converter')]
	on_edge = convert[arguments.get('edge_label_converter')]
	nodes = [(str(name), on_node(str(item.label) if item.label else str(name))) for name, item in model.nodes.items()]
	edges = []
	for key, item in model.edges.items():
		if item.label is not None:
			label = on_edge(item.label)
		else:
			label = None if item.value is None else str(item.value)
		edges.append((str(key[0]), str(key[1]), label))
	return nodes, sorted(edges, key=repr)


def verify(text, model, arguments, what, styled=True):
	"""Every node and edge of the model exactly once, with its label, each styled."""
	found = parse(text)
	nodes, edges = expected_labels(model, arguments)
	expect_equal([(name, attrs.get('label')) for name, attrs in found['nodes']], nodes, 'render-incomplete', f'{what}: nodes')
	expect_equal(
		sorted(((a, b, attrs.get('label')) for a, b, attrs in found['edges']), key=repr), edges, 'render-incomplete', f'{what}: edges'
	)
	for kind, items in (('node', model.nodes), ('edge', model.edges)):
		tips = sorted(str(item.tooltip) for item in items.values() if item.tooltip is not None)
		shown = sorted(entry[-1]['tooltip'] for entry in found[kind + 's'] if 'tooltip' in entry[-1])
		expect_equal(shown, tips, 'render-incomplete', f'{what}: tooltips of {kind}s')
	if styled:
		for entry in found['nodes'] + found['edges']:
			check(
				any(key in entry[-1] for key in STYLE), 'not-styled', f'{what}: {entry[:-1]} has no style'
			)
	return found


def without_styles(text):
	"""The content of DOT text apart from how nodes and edges are styled."""
	found = parse(text)
	return (
		[(name, attrs.get('label'), attrs.get('tooltip')) for name, attrs in found['nodes']],
		sorted([(a, b, attrs.get('label'), attrs.get('tooltip')) for a, b, attrs in found['edges']], key=repr),
		found['graph'], found['strict']
	)
