"""C12: separate graphs never influence each other, under any thread schedule."""
import os
import shutil
import tempfile

from .. import program as p
from ..callbacks import Plan
from ..child import Helpers
from ..core import Violation, check, first_difference, short
from ..disk import Disk, empty
from ..mon import STEPPER
from ..sched import Scheduler, gen_plan, resolve

ID = 'C12'
LEVEL = 'exploration'
RUNS = {'quick': 2600, 'thorough': 32000}
LISTS = [('programs',), ('programs', '*', 'ops'), ('plans',), ('plans', '*'), ('switches',)]
RULE = (
	'one evaluation = two or three seeded programs (edits, queries, copies, pickles, filters, merges, renders, random graphs, outlines, '
	'appending shared descriptions, shared style objects and global style dictionaries, saves to files and SVG texts with failing '
	'files and layout programs) run in real threads under four seeded schedules '
	'with the turn passing at lines or single instructions inside the library; every transcript is compared with the one of the same '
	'program alone in a pristine process; non-trivial = at least one switch happened in the middle of a call; distinct = different traces'
)
TECHNIQUE = 'deterministic simulation of thread schedules (one thread has the turn, seeded switch points inside the library); transcripts against a solo run in a pristine process and against the reference model'
REAL = ['the whole package abstract', 'colouration', 'graphviz (Python package)', 'threads of the operating system (one at a time)', 'a pristine second process']
STUB = ['thread scheduler', 'disk faults (files in a scratch folder)', 'layout program dot (simulated)']
STATES = 'interleavings: sequences of (step, thread) at which the turn passed on'
POINTS = 'places (function, line or instruction) in the library at which the turn passed on'
HASH_SEEDS = (0,)


def start_helpers(config):
	return Helpers(HASH_SEEDS)


def gen(rng, index, tier):
	names = rng.choice((list('abcdef'), [1, 2, 3, 4, 5, 6], ['n1', 'n2', 'n3', 'n4', 'n5']))
	if index % 4 == 3:
		return gen_sharing(rng, names)
	shared = p.gen_shared(rng, names)
	same = rng.random() < 0.4
	files = rng.random() < 0.4
	focused = rng.random() < (0.8 if files else 0.5)
	kind = 'render' if files else rng.choice(p.KINDS)
	programs = []
	for _ in range(rng.choice((2, 2, 3))):
		if same and programs:
			programs.append(dict(programs[0]))
		elif focused:
			programs.append(p.gen_focused(rng, names, shared, kind))
		else:
			programs.append(p.gen_program(rng, names, shared, rng.choice((3, 6, 10))))
	trace = {'programs': programs, 'plans': [gen_plan(rng) for _ in range(4)], 'instructions': rng.random() < 0.3, 'first': rng.randint(0, 2)}
	if files:
		return with_files(rng, trace)
	return with_filter(rng, trace) if rng.random() < 0.3 else trace


def with_filter(rng, trace):
	"""The process treats warnings as errors."""
	trace['filter'] = 'error'
	trace['programs'] = [p.strictly(rng, program) for program in trace['programs']]
	return trace


def with_files(rng, trace):
	"""Every other render goes to a file, or becomes an SVG text; the programs have folders, or names, of their own."""
	folders = rng.random() < 0.6
	trace['offers'] = [rng.getrandbits(32) for _ in trace['plans']]
	programs = []
	for i, program in enumerate(trace['programs']):
		ops = []
		for op in program['ops']:
			kind = rng.choice(('save', 'save', 'svg', 'render')) if op['op'] == 'render' else None
			if kind == 'save':
				name = rng.choice(('picture', 'picture', 'x.y'))
				kind = rng.choice(('svg', 'svg', 'png', 'pdf'))
				op = {'op': 'save', 'path': f'p{i}/{name}.{kind}' if folders else f'p{i}{name}/p{i}.{kind}'}
				if rng.random() < 0.25:
					op['fault'] = rng.choice((
						{'where': 'open', 'kind': 'open', 'errno': 'EACCES'}, {'where': 'open', 'kind': 'full', 'after': rng.randint(0, 300)},
						{'where': 'layout', 'kind': 'exit', 'share': rng.choice((0, 50))}, {'where': 'layout', 'kind': 'signal', 'share': 0},
						{'where': 'layout', 'kind': 'missing'}
					))
			elif kind == 'svg':
				op = {'op': 'svg'}
			if op['op'] in ('save', 'svg') and rng.random() < 0.4:
				op['options'] = rng.choice(({'direction': 'TB'}, {'pad': 1}, {'direction': 'RL', 'pad': 2}))
			ops.append(op)
		programs.append(dict(program, ops=ops))
	trace['programs'] = programs
	return trace


def gen_sharing(rng, names):
	"""Programs whose graphs have the same arguments and take in the same descriptions."""
	overwrite = rng.random() < 0.4
	shared = p.gen_shared(rng, names, (1, 1, 2), overwrite)
	arguments = p.sharing_arguments(rng)
	pools = [names, ['a', 'b'], ['a long name', 'another one', 'b'], names]
	return {
		'programs': [p.gen_sharing(rng, rng.choice(pools), shared, arguments, overwrite) for _ in range(rng.choice((2, 2, 3)))],
		'plans': [gen_plan(rng) for _ in range(2)], 'instructions': rng.random() < 0.3, 'first': rng.randint(0, 2)
	}


def in_child(request):
	STEPPER.watch = False
	STEPPER.off()

	def work():
		return p.quietly(lambda: [p.play(program) for program in request['programs']], request['errors'])
	if not needs_disk(request['programs']):
		return work()
	folder = tempfile.mkdtemp(prefix='abstract-sim-')
	try:
		with Disk(folder) as disk:
			folders_for(disk, request['programs'])
			result = work()
			disk.verify_contained('alone')
		return result
	finally:
		shutil.rmtree(folder)


def errors_of(trace):
	return trace.get('filter') == 'error'


def needs_disk(programs):
	return any(op['op'] in ('save', 'svg') for program in programs for op in program['ops'])


def folders_for(disk, programs):
	empty(disk.work)
	disk.plan(None)
	disk.waiting = {}
	for program in programs:
		for op in program['ops']:
			if op['op'] == 'save':
				os.makedirs(os.path.join(disk.work, os.path.dirname(op['path'])), exist_ok=True)


def difference(got, expected):
	for i, (a, b) in enumerate(zip(got, expected)):
		if a != b:
			where = next((j for j, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
			return i, f'...{a[max(0, where - 60):where + 120]!r} instead of ...{b[max(0, where - 60):where + 120]!r}'
	return min(len(got), len(expected)), f'{len(got)} answers instead of {len(expected)}'


def run(trace, ctx):
	Plan.reset()
	programs = trace['programs']
	if not programs:
		return
	expected = [
		ctx.helpers[0].request({'property': ID, 'fork': True, 'programs': [program], 'errors': errors_of(trace)})[0] for program in programs
	]
	STEPPER.threads(trace['instructions'])
	if not needs_disk(programs):
		interleave(trace, programs, expected, ctx, lambda: None)
		return
	with Disk(ctx.scratch, ctx) as disk:
		interleave(trace, programs, expected, ctx, lambda: folders_for(disk, programs))
		disk.verify_contained('interleaved')
		empty(disk.work)


def interleave(trace, programs, expected, ctx, prepare):
	schedules = [trace['switches']] if 'switches' in trace else None
	if schedules is None:
		# the length of the schedule, with the programs one after another
		materials = p.Materials()
		prepare()
		rehearsal = Scheduler([lambda program=program: p.play(program, materials) for program in programs], rehearse=True)
		results = p.quietly(rehearsal.run, errors_of(trace))
		verify(trace, results, expected, 'one after another', dict(trace, switches=[]), ctx)
		schedules = [resolve(plan, rehearsal) for plan in trace['plans']]
	for number, switches in enumerate(schedules):
		resolved = {key: value for key, value in trace.items() if key != 'plans'}
		resolved['switches'] = switches
		offers = (trace.get('offers') or [0])[number:] or [0]
		resolved['offers'] = [offers[0]]
		prepare()
		materials = p.Materials()
		scheduler = Scheduler(
			[lambda program=program: p.play(program, materials) for program in programs], switches, first=trace['first'] % len(programs),
			offers=offers[0]
		)
		try:
			results = p.quietly(scheduler.run, errors_of(trace))
		except Violation:
			ctx.resolved = resolved
			raise
		ctx.nontrivial = ctx.nontrivial or scheduler.switched > 0
		ctx.fault('thread switch inside a call', scheduler.switched)
		ctx.points |= scheduler.points
		ctx.state(scheduler.trail)
		ctx.count('schedules')
		ctx.count('calls', sum(len(program['ops']) for program in programs))
		verify(trace, results, expected, f'interleaved ({scheduler.switched} switches)', resolved, ctx)


def verify(trace, results, expected, what, resolved, ctx):
	for i, ((transcript, error), wanted) in enumerate(zip(results, expected)):
		if error is not None:
			ctx.resolved = resolved
			if isinstance(error, Violation):
				raise Violation(error.kind, f'{what}, thread {i}: {error.message}')
			raise Violation('unexpected-error', f'{what}, thread {i} raised {type(error).__name__}: {error}')
		if transcript != wanted:
			ctx.resolved = resolved
			position, text = difference(transcript, wanted)
			raise Violation('influenced', f'{what}, thread {i}, answer {position} differs from that of the program alone: {text}')
		ctx.log(what, i, len(transcript), hash_of(transcript))


def hash_of(transcript):
	import hashlib
	return hashlib.sha256(repr(transcript).encode()).hexdigest()[:16]
