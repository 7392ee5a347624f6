"""C01: a graph is exactly what its edit history says."""
from .. import gen as g
from ..world import World, must
from ..core import check

ID = 'C01'
LEVEL = 'exploration'
RUNS = {'quick': 36000, 'thorough': 450000}
LISTS = [('history',)]
RULE = (
	'one evaluation = one seeded edit history (4 to 40 calls, accepted and refused, by name and by object, with stale objects), '
	'compared with the reference model after every call; non-trivial = at least 4 accepted edits and at least one edge was made; '
	'distinct = different histories'
)
TECHNIQUE = 'deterministic simulation: seeded edit histories with refused calls, reference model after every call'
REAL = ['abstract._BasicGraph', 'abstract._GraphWithoutDisplay', 'abstract.Node', 'abstract.Edge', 'abstract._GraphObj']
STUB = ['warning filters and hook of the caller']


def gen(rng, index, tier):
	config = g.configuration(rng)
	if rng.random() < 0.05:
		config['names'] = g.TWINS[:rng.randint(2, 6)]
	config['weights']['bring'] = rng.choice((0, 1, 2))
	length = rng.choice((4, 8, 12, 20, 40))
	if rng.random() < 0.04:
		config['names'] = g.MANY[:rng.randint(9, 16)]
		config['weights']['connect'] = 20
		length = rng.choice((50, 90))
	ops, _ = g.history(rng, config, length)
	return {
		'overwrite': config['overwrite'], 'history': g.seldom(rng, ops), 'every': rng.choice((1, 1, 3)),
		'arguments': {'strict': rng.random() < 0.3, 'ordering': rng.random() < 0.7}
	}


def run(trace, ctx):
	world = World(trace.get('arguments'), overwrite=trace['overwrite'], ctx=ctx)
	world.verify('empty graph')
	accepted = edges = 0
	for i, op in enumerate(trace['history']):
		ok = world.apply(op)
		accepted += ok
		edges += ok and op['op'] == 'connect'
		what = f'after call {i} {op}'
		if not op.get('look', True) and i + 1 < len(trace['history']):
			continue
		world.verify(what)
		if i % trace['every'] == 0 or i + 1 == len(trace['history']):
			world.verify_queries(what)
			# asking changes nothing
			world.verify(what + ' and all queries')
	re_add_removed(world, ctx)
	ctx.nontrivial = accepted >= 4 and edges >= 1


def re_add_removed(world, ctx):
	"""A removed node comes back without its edges, through its object."""
	seen = set()
	for name, node in list(world.stale_nodes):
		if name in world.model.nodes or name in seen:
			continue
		seen.add(name)
		returned = must(lambda: world.graph.add_node(name=node), f'adding the removed node {name!r} again')
		check(returned is node, 'wrong-object', f'adding the removed node {name!r} again returned another object')
		from ..model import Item
		item = Item({})
		item.label, item.value, item.frozen = node.raw_label, node.value, bool(node.is_frozen)
		view = world.observe()
		check(view['outward'][name] == [] and view['inward'][name] == [], 'content', f'{name!r} came back with edges')
		must(lambda: world.graph.remove_node(node=node), f'removing {name!r} again')
		ctx.count('op:re-add removed object')
	world.verify('after adding and removing removed nodes again')
