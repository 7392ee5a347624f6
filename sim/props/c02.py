"""C02: a failed edit leaves the graph exactly as it was."""
from .. import gen as g
from ..core import Violation, check, expect_equal, short
from ..model import Model, Refused
from ..world import CallerError, CallerWarning, World, call, must, observe_fully

ID = 'C02'
LEVEL = 'fault_enumeration'
RUNS = {'quick': 80000, 'thorough': 900000}
LISTS = [('history',)]
RULE = (
	'one evaluation = one seeded history in which failing edits of every kind stand between accepted ones (and renders), the '
	'full observation (content, order, styles, DOT text, settings) being taken before and after each failing edit, followed by '
	'the same history without the failing edits; or one edit of an edge whose id fails at its k-th hash or comparison, for '
	'every k; non-trivial = at least one failure fired in a graph with at least one node; distinct = different histories'
)
TECHNIQUE = 'deterministic simulation: failing edits injected at every point of seeded histories, failing caller code at every call'
REAL = ['abstract._BasicGraph', 'abstract._GraphWithoutDisplay', 'abstract.Node', 'abstract.Edge', 'abstract._GraphObj', 'colouration']
STUB = ['warning filters and warning hook of the caller', 'hash and comparison of edge ids']
BAD_CALLS = (
	'disconnect nothing', 'disconnect a name', 'remove nothing', 'remove a number', 'remove a list', 'connect one end',
	'foreign node', 'foreign node of the same name'
)


class FlakyId:
	"""An edge id of the caller whose hash or comparison can be told to fail."""
	calls = 0
	fail_at = None
	kinds = ()

	def __init__(self, name):
		self.name = name

	def _call(self, kind):
		FlakyId.calls += 1
		if FlakyId.fail_at is not None and FlakyId.calls == FlakyId.fail_at:
			FlakyId.kinds += (kind,)
			raise CallerError(f'the {kind} of an edge id failed')

	def __hash__(self):
		self._call('hash')
		return hash(('flaky', self.name[:1]))  # ids with the same first letter collide

	def __eq__(self, other):
		self._call('comparison')
		return isinstance(other, FlakyId) and self.name == other.name

	def __repr__(self):
		return f'FlakyId({self.name!r})'


def gen(rng, index, tier):
	config = g.configuration(rng, max_nodes=6)
	if rng.random() < 0.05:
		config['names'] = g.TWINS[:rng.randint(2, 6)]
	if index % 5 == 0:
		ops, model = g.grow(rng, config, rng.randint(2, 4), rng.randint(0, 5))
		names = list(model.nodes)
		pairs = [[rng.choice(names), rng.choice(names)] for _ in range(rng.randint(1, 3))]
		flaky = []
		for _ in range(rng.randint(0, 4)):
			flaky.append({'op': 'connect', 'pair': rng.choice(pairs), 'id': rng.choice(('x', 'xy', 'z'))})
		return {
			'mode': 'flaky', 'overwrite': config['overwrite'], 'history': ops, 'flaky': flaky,
			'edit': {
				'op': rng.choice(('connect', 'connect', 'disconnect', 'disconnect', 'remove_self')), 'pair': rng.choice(pairs),
				'id': rng.choice(('x', 'xy', 'z')), 'label': rng.choice((None, 'new label')), 'value': rng.choice((None, 5))
			}
		}
	config['refuse'] = 0.0
	config['weights']['bring'] = rng.choice((0, 0, 1))
	model = Model(config['overwrite'])
	ops = []
	for _ in range(rng.choice((6, 10, 16, 24))):
		if rng.random() < 0.4:
			op = None
			for _ in range(10):
				op = g.refused(rng, config, model)
				if op is not None:
					break
			if rng.random() < 0.1 and model.nodes:
				op = {'op': 'bad_call', 'kind': rng.choice(BAD_CALLS), 'name': rng.choice(list(model.nodes))}
		elif rng.random() < 0.04 and 0 < len(model.nodes) and len(model.edges) < 8:
			op = {'op': 'render'}
		elif rng.random() < 0.1:
			op = {'op': 'set', 'field': 'frozen', 'to': rng.random() < 0.8}
			where = g.target(rng, model)
			if where is None:
				continue
			op.update(where)
		else:
			op = g.next_op(rng, config, model)
		if op is None:
			continue
		ops.append(op)
		try:
			model.apply(op)
		except Refused:
			pass
	return {'mode': 'history', 'overwrite': config['overwrite'], 'history': ops}


def run(trace, ctx):
	if trace['mode'] == 'flaky':
		run_flaky(trace, ctx)
	else:
		run_history(trace, ctx)


def run_history(trace, ctx):
	world = World(overwrite=trace['overwrite'], ctx=ctx)
	clean = []
	failures = 0
	before = world.observe_fully()
	for i, op in enumerate(trace['history']):
		objects = list(world.graph.nodes) + list(world.graph.edges)
		accepted = world.apply(op)
		after = world.observe_fully()
		if accepted:
			clean.append(op)
		else:
			failures += len(before['nodes']) > 0
			expect_equal(after, before, 'failed-edit-changed-graph', f'after the failing call {i} {op}')
			now = list(world.graph.nodes) + list(world.graph.edges)
			check(
				len(now) == len(objects) and all(a is b for a, b in zip(now, objects)), 'failed-edit-changed-graph',
				f'after the failing call {i} {op} the graph lists other objects'
			)
		before = after
	if failures and len(clean) < len(trace['history']):
		twin = World(overwrite=trace['overwrite'])
		for op in clean:
			if not twin.apply(op):
				raise Violation('twin', f'{op} was refused without the failing calls before it')
		expect_equal(before, twin.observe_fully(), 'failed-edit-had-later-effect', 'against the same history without the failing calls')
	ctx.state(before['outward'])
	ctx.nontrivial = failures > 0


def run_flaky(trace, ctx):
	FlakyId.fail_at = None
	count = None
	k = 0
	while count is None or k <= count:
		FlakyId.fail_at = None
		world = World(overwrite=trace['overwrite'])
		graph = world.graph
		for op in trace['history']:
			world.apply(op)
		edges = {}
		for op in trace['flaky']:
			start, end = op['pair']
			if start in world.model.nodes and end in world.model.nodes:
				key = (start, end, op['id'])
				edge = must(lambda: graph.connect(start=start, end=end, id=FlakyId(op['id']), if_edge_exists='ignore'), f'{op}')
				edges.setdefault(key, edge)
				check(edges[key] is edge, 'wrong-object', f'{op} made a second edge')
		edit = trace['edit']
		start, end = edit['pair']
		if start not in world.model.nodes or end not in world.model.nodes:
			return
		key = (start, end, edit['id'])
		edge = edges.get(key)

		def perform():
			if edit['op'] == 'connect':
				attributes = {name: edit[name] for name in ('label', 'value') if edit.get(name) is not None}
				return graph.connect(start=start, end=end, id=FlakyId(edit['id']), if_edge_exists='ignore', **attributes)
			if edge is None:
				raise KeyError(key)
			if edit['op'] == 'disconnect':
				return graph.disconnect(edge=edge)
			return edge.remove_self()

		def look():
			return must(lambda: [
				[(name, repr(value)) for name, value in observe_fully(graph).items()],
				[[id(edge) for edge in node.edges] for node in graph.nodes]
			], 'observing the graph')

		before = look()
		FlakyId.calls = 0
		FlakyId.fail_at = k or None
		FlakyId.kinds = ()
		result, error = call(perform)
		calls = FlakyId.calls
		fired = FlakyId.kinds
		FlakyId.fail_at = None
		what = f'{edit} with the id failing at call {k}'
		if k == 0:
			count = calls
			if edge is None and edit['op'] != 'connect':
				return
			check(error is None, 'refused-valid-edit', f'{edit} raised {error!r}')
		elif fired:
			ctx.fault('edge id failed in its ' + fired[0])
			if error is None:
				raise Violation('error-lost', f'{what}: returned although the id failed')
			check(isinstance(error, CallerError), 'error-lost', f'{what}: raised {type(error).__name__}: {error} instead')
			after = look()
			expect_equal(after, before, 'failed-edit-changed-graph', what)
			# the same edit works once the fault is gone
			must(perform, f'{edit} after it had failed')
			final = look()
			listed = [name for name in graph.edges_dict if name[:2] == (start, end) and getattr(name[2], 'name', None) == edit['id']]
			check(
				len(listed) == (1 if edit['op'] == 'connect' else 0), 'failed-edit-had-later-effect', f'{what}, then repeated: {listed}'
			)
			ctx.nontrivial = True
			ctx.log('flaky', k, fired, short(len(final)))
		k += 1
