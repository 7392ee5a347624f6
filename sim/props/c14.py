"""C14: outlines are parsed line by line and never half accepted."""
from ..callbacks import CallerError, Plan
from ..core import Violation, check, expect_equal, short
from ..sut import Graph, parse_indentations
from ..world import call, observe

ID = 'C14'
LEVEL = 'fault_enumeration'
RUNS = {'quick': 48000, 'thorough': 550000}
LISTS = [('outlines',), ('outlines', '*', 'lines'), ('schedule',), ('outlines', '*', 'only')]
RULE = (
	'one evaluation = one to four seeded outlines (indents, empty lines, badly indented lines, lines that are no text) parsed at the same '
	'time, in the seeded order in which their lines are asked for, some parses being abandoned, some sources failing; every report is '
	'compared with a reference at the moment it is made, and so is the number of lines taken; then each outline is parsed and made into '
	'a graph with its source failing at each line in turn, and with a bad line at each place in turn; non-trivial = at least two lines; '
	'distinct = different traces'
)
TECHNIQUE = 'deterministic simulation of parses in progress at the same time, over sources that fail at every line; against a reference parser'
REAL = ['abstract.parse_indentations_function', 'abstract._BasicGraph.from_indented_text', 'abstract.Graph']
STUB = ['the source of the lines', 'the order in which parses are advanced']
STATES = 'orders in which the lines of several outlines were taken'
POINTS = 'places (line, kind of failure) at which a source failed or a line was bad'
ERRORS = (CallerError, KeyError, AttributeError, OSError, ValueError, TypeError, RuntimeError, IndexError, UnicodeError)
UNITS = ('\t', '\t', '  ', '    ', ' ', '   ', '\t\t', '        ', ' \t', '\t ', '--', '>', '. ')
WORDS = ('alpha', 'beta', 'a b', 'x\ty', 'item: 1', 'é', 'word  two', 'a--b', 'b>', '{0}', 'c. d', 'x    y', 'trailing ', '"quoted"', '1', '%s', 'root')


# generation
def gen(rng, index, tier):
	outlines = [gen_outline(rng) for _ in range(rng.choice((1, 2, 2, 3, 4)))]
	length = sum(len(outline['lines']) + 1 for outline in outlines)
	return {
		'outlines': outlines, 'schedule': [rng.randrange(len(outlines)) for _ in range(length + rng.randint(0, 4))],
		'abandon': rng.choice((None, None, rng.randrange(len(outlines)))), 'error': rng.randrange(len(ERRORS)),
		'kind': rng.choice(('list', 'live', 'live', 'tuple'))
	}


def gen_outline(rng):
	unit = rng.choice(UNITS)
	lines = []
	depth = -1
	for _ in range(rng.choice((0, 1, 2, 3, 5, 8, 14))):
		if rng.random() < 0.12:
			lines.append(['empty', rng.choice(('', '\n'))])
			continue
		depth = rng.choice((0, depth, depth, depth + 1, depth + 1, rng.randint(0, depth + 1)))
		depth = max(0, depth)
		lines.append([depth, rng.choice(WORDS) + rng.choice(('', '', '\n', '\n\n'))])
	return {
		'unit': unit, 'given': unit if unit.strip(' \t') or rng.random() < 0.5 else None, 'lines': lines,
		'bad': rng.choice(('part', 'deep', 'mixed', 'no text', 'number', 'blank')), 'root': rng.choice(('root', 'top', 'a b', ''))
	}


def text_of(outline, line):
	depth, text = line
	return text if depth == 'empty' else outline['unit'] * depth + text


def bad_line(outline, before):
	"""A line that cannot stand behind these; None if this kind of badness is not possible."""
	unit, kind = outline['unit'], outline['bad']
	known = outline['given'] is not None or any(depth not in ('empty', 0) for depth, _ in before)
	white = not unit.strip(' \t')
	depths = [depth for depth, _ in before if depth != 'empty']
	if kind == 'no text':
		return None, True
	if kind == 'number':
		return 7, True
	if kind == 'deep':
		# without a known unit, any indent is one unit
		deepest = depths[-1] if depths else -1
		return unit * (deepest + 2) + 'too deep', known or not depths
	if kind == 'blank':
		return unit * 2 + '\n', known and white and bool(depths)
	if kind == 'mixed':
		other = {' ': '\t', '\t': ' '}.get(unit[0], ' ')
		return other * (4 if other == ' ' else 1) + 'mixed', known
	if white and len(unit) > 1:
		return unit * (depths[-1] if depths else 0) + unit[:len(unit) // 2] + 'part', known
	return '', False


def reference(outline):
	"""[(index, level, text, parent)] for the well-formed lines."""
	result = []
	level = 0
	for index, (depth, text) in enumerate(outline['lines']):
		text = text.rstrip('\n')
		if depth != 'empty':
			level = depth
		parent = None
		if level:
			parent = max(
				i for i, (d, _) in enumerate(outline['lines'][:index]) if d == level - 1
			)
		result.append((index, level, '' if depth == 'empty' else text, parent))
	return result


def sound(outline):
	"""Shrinking may leave a line too deep."""
	depth = -1
	for d, _ in outline['lines']:
		if d != 'empty':
			if d > depth + 1:
				return False
			depth = d
	return True


class Source:
	"""Hands out lines one by one, and may fail."""

	def __init__(self, lines, fail_at=None, error=CallerError):
		self.lines = lines
		self.fail_at = fail_at
		self.error = error
		self.taken = 0
		self.raised = None

	def __iter__(self):
		for i, line in enumerate(self.lines):
			if i == self.fail_at:
				self.fail(i)
			self.taken += 1
			yield line
		if self.fail_at == len(self.lines):
			self.fail(self.fail_at)

	def fail(self, i):
		self.raised = self.error(f'the source failed at line {i}')
		raise self.raised


class Parse:
	"""One parse in progress, checked at every step."""

	def __init__(self, outline, kind, what):
		self.what = what
		self.expected = reference(outline)
		self.lines = [text_of(outline, line) for line in outline['lines']]
		self.kept = list(self.lines)
		self.kind = kind
		self.source = Source(self.lines) if kind == 'live' else tuple(self.lines) if kind == 'tuple' else self.lines
		self.parser, error = call(lambda: iter(start(self.source, outline)))
		check(error is None, 'unexpected-error', f'{what} raised {error!r}')
		self.done = 0
		self.ended = False

	def advance(self):
		if self.ended:
			return
		found, error = call(lambda: next(self.parser, None))
		what = f'{self.what}, line {self.done}'
		if error is not None:
			raise Violation('unexpected-error', f'{what} raised {type(error).__name__}: {error}')
		if self.done == len(self.expected):
			check(found is None, 'wrong-report', f'{what}: got {short(found)} behind the last line')
			self.ended = True
			return
		check(found is not None, 'wrong-report', f'{what} is not reported')
		expect_equal(tuple(found), self.expected[self.done], 'wrong-report', what)
		self.done += 1
		if self.kind == 'live':
			expect_equal(self.source.taken, self.done, 'not-line-by-line', f'{what}: lines taken when it was reported')

	def verify(self):
		expect_equal(self.lines, self.kept, 'source-changed', self.what)


def start(lines, outline):
	if outline['given'] is None:
		return parse_indentations(lines)
	return parse_indentations(lines, indent=outline['given'])


# execution
def run(trace, ctx):
	Plan.reset()
	outlines = [outline for outline in trace['outlines'] if sound(outline)]
	ctx.nontrivial = sum(len(outline['lines']) for outline in outlines) > 1
	together(trace, outlines, ctx)
	for i, outline in enumerate(outlines):
		alone(trace, outline, f'outline {i}', ctx)


def together(trace, outlines, ctx):
	parses = [Parse(outline, trace['kind'], f'outline {i}') for i, outline in enumerate(outlines)]
	order = []
	for turn, choice in enumerate(trace['schedule']):
		if choice >= len(parses):
			continue
		if trace['abandon'] == choice and turn > len(trace['schedule']) // 2:
			parses[choice].parser = None
			parses[choice].ended = True
			ctx.fault('parse abandoned')
			continue
		parses[choice].advance()
		order.append(choice)
	for parse in reversed(parses):
		while not parse.ended:
			parse.advance()
		parse.verify()
	ctx.state(order, [len(parse.expected) for parse in parses])
	ctx.count('parses in progress at once', len(parses))
	ctx.log('together', order, [parse.expected for parse in parses])


def alone(trace, outline, what, ctx):
	lines = [text_of(outline, line) for line in outline['lines']]
	expected = reference(outline)
	whole(outline, lines, expected, what)
	for k in outline.get('only') or range(len(lines) + 1):
		if k > len(lines):
			continue
		try:
			error = ERRORS[(k + trace['error']) % len(ERRORS)]
			source = Source(lines, k, error)
			failing(outline, source, expected[:k], f'{what} with the source failing at line {k}', lambda: source.raised)
			source2 = Source(lines, k, error)
			no_graph(outline, source2, f'{what} with the source failing at line {k}', lambda: source2.raised)
			ctx.fault('source failed', 2)
			ctx.points.add((k, 'source failed'))
			bad, possible = bad_line(outline, outline['lines'][:k])
			if possible:
				spoiled = lines[:k] + [bad] + lines[k:]
				place = f'{what} with the bad line {bad!r} at {k}'
				failing(outline, Source(spoiled), expected[:k], place)
				no_graph(outline, spoiled if trace['kind'] == 'list' else Source(spoiled), place)
				ctx.fault('bad line: ' + outline['bad'], 2)
				ctx.points.add((k, outline['bad']))
		except Violation:
			outline['only'] = [k]
			ctx.resolved = trace
			raise
	whole(outline, lines, expected, f'{what} after failures')
	ctx.log(what, expected)


def failing(outline, source, expected, what, raised=None):
	"""Everything before the failure is reported, and then the error."""
	parser, error = call(lambda: iter(start(source, outline)))
	got = []
	while error is None:
		found, error = call(lambda: next(parser, None))
		if error is None:
			check(found is not None, 'error-lost', lambda: f'{what}: the parse ended without an error after {short(got)}')
			got.append(tuple(found))
			check(len(got) <= len(expected), 'error-lost', lambda: f'{what}: it reported {short(got[-1])}')
			expect_equal(source.taken, len(got), 'not-line-by-line', f'{what}: lines taken')
	expect_equal(got, expected, 'wrong-report', what)
	if raised is not None:
		check(error is raised(), 'error-lost', lambda: f'{what}: the caller got {type(error).__name__}: {error}')


def no_graph(outline, source, what, raised=None):
	graph, error = call(lambda: make_graph(outline, source))
	check(error is not None, 'error-lost', lambda: f'{what}: no error reached the caller, who got a graph of {len(graph.nodes)} nodes')
	if raised is not None:
		check(error is raised(), 'error-lost', lambda: f'{what}: the caller got {type(error).__name__}: {error}')


def make_graph(outline, source):
	if outline['given'] is None:
		return Graph.from_indented_text(root=outline['root'], lines=source)
	return Graph.from_indented_text(root=outline['root'], lines=source, indent=outline['given'])


def whole(outline, lines, expected, what):
	graph, error = call(lambda: make_graph(outline, lines))
	if error is not None:
		raise Violation('unexpected-error', f'{what}: the graph raised {type(error).__name__}: {error}')
	view = observe(graph)
	expect_equal(sorted(view['nodes']), sorted(['root'] + [str(i) for i in range(len(lines))]), 'wrong-graph', f'{what}: nodes')
	edges = sorted(('root' if parent is None else str(parent), str(i), None) for i, _, _, parent in expected)
	expect_equal(sorted(view['edges']), edges, 'wrong-graph', f'{what}: edges')
	for name in view['nodes']:
		expect_equal(sorted(view['outward'][name]), [key for key in edges if key[0] == name], 'wrong-graph', f'{what}: edges from {name}')
		expect_equal(sorted(view['inward'][name]), [key for key in edges if key[1] == name], 'wrong-graph', f'{what}: edges to {name}')
	expect_equal(view['nodes']['root']['label'], outline['root'], 'wrong-graph', f'{what}: label of the root')
	if lines:
		expect_equal([node.name for node in graph.absolute_roots], ['root'], 'wrong-graph', f'{what}: roots')
