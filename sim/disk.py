"""The seam for files and processes: a scratch folder with faulting writes, and a simulated layout program and viewer.

While it is installed, open() and subprocess.Popen go through the simulator; whatever else would write a file outside of
the scratch folder, remove one, or start a process is stopped before it happens (audit hook) and recorded.
"""
import builtins
import errno
import io
import os
import subprocess
import sys
import tempfile

from .core import Violation
from .mon import STEPPER

FORMATS = frozenset(
	'canon cmap cmapx dot dot_json eps fig gif gv imap ismap jpe jpeg jpg json json0 pdf pic plain plain-ext png pov ps ps2 '
	'svg svgz tk vml webp xdot xdot_json'.split()
)
_real_open = builtins.open
_real_popen = subprocess.Popen


class Escape(BaseException):
	"""The code under test is about to touch something outside of the scratch folder."""


def offer(what):
	"""While files and processes are at work another thread may get the turn."""
	if STEPPER.scheduler is not None:
		STEPPER.scheduler.offer(what)


class Layout:
	"""What the simulated layout program makes of a source: all of it, or nothing worth keeping."""

	@staticmethod
	def image(source, kind):
		source = source.strip()
		if kind == 'svg':
			return f'<svg n="{len(source)}">\n{source}\n</svg>\n'
		return f'%IMAGE {kind} {len(source)}\n{source}\n%END\n'

	@staticmethod
	def source(image, kind):
		"""The source of a complete image of this kind; None for anything else."""
		if isinstance(image, bytes):
			try:
				image = image.decode('utf-8')
			except UnicodeDecodeError:
				return None
		first, _, rest = image.partition('\n')
		end = '\n</svg>\n' if kind == 'svg' else '\n%END\n'
		if not rest.endswith(end):
			return None
		body = rest[:-len(end)]
		start = f'<svg n="{len(body)}">' if kind == 'svg' else f'%IMAGE {kind} {len(body)}'
		return body if first == start else None


class FaultyFile(io.TextIOWrapper):
	"""A file on a disk that runs full after some bytes, or fails when it is closed."""

	def __init__(self, path, fault, encoding, disk):
		self._disk = disk
		self._fault = fault
		self._room = fault.get('after', 0)
		super().__init__(_real_open(path, 'wb'), encoding=encoding or 'utf-8', write_through=True)

	def write(self, text):
		if self._fault['kind'] == 'full':
			data = text[:self._room]
			self._room -= len(data)
			if data:
				super().write(data)
			if len(data) < len(text):
				self._disk.hit('write fails: disk full')
				raise OSError(errno.ENOSPC, 'No space left on device')
			return len(text)
		return super().write(text)

	def close(self):
		late = self._fault['kind'] == 'close' and not self.closed
		super().close()
		if late:
			self._disk.hit('close fails: I/O error')
			raise OSError(errno.EIO, 'Input/output error')


class FakeProcess:
	"""A process of the simulated system: the layout program, or a viewer."""

	def __init__(self, args, bufsize=-1, executable=None, stdin=None, stdout=None, stderr=None, **kwargs):
		disk = Disk.current
		if isinstance(args, (str, bytes)):
			args = [args]
		self.args = [os.fspath(arg) for arg in args]
		self.pid = 0
		self.returncode = None
		self._text = bool(kwargs.get('encoding') or kwargs.get('text') or kwargs.get('universal_newlines'))
		self._cwd = os.path.abspath(kwargs.get('cwd') or os.getcwd())
		self._capture = stdout == subprocess.PIPE
		self._fault = {}
		self.stdin = self.stdout = self.stderr = None
		program = os.path.basename(self.args[0])
		self._program = program
		offer('a process is started')
		if program in ('dot', 'dot.exe'):
			self._fault = disk.fault_of('layout', os.path.join(self._cwd, self.args[-1])) or disk.next_fault('layout') or {}
		else:
			self._fault = disk.next_fault('viewer') or {}
		disk.processes.append({'program': program, 'args': self.args[1:], 'cwd': self._cwd})
		kind = self._fault.get('kind')
		if kind in ('missing', 'denied', 'memory', 'descriptors'):
			number = {
				'missing': errno.ENOENT, 'denied': errno.EACCES, 'memory': errno.ENOMEM, 'descriptors': errno.EMFILE
			}[kind]
			disk.hit(f'{"layout program" if program == "dot" else "viewer"} cannot be started: {errno.errorcode[number]}')
			raise OSError(number, os.strerror(number), self.args[0])
		if program in ('dot', 'dot.exe'):
			if stdin == subprocess.PIPE:
				self.stdin = FakePipe(self)
		else:
			self._view(disk)

	# as a context manager, and the usual ways to wait for a process
	def __enter__(self):
		return self

	def __exit__(self, *args):
		self.wait()

	def poll(self):
		return self.returncode

	def wait(self, timeout=None):
		if self.returncode is None:
			self.communicate()
		return self.returncode

	def kill(self):
		if self.returncode is None:
			self.returncode = -9

	terminate = kill

	def communicate(self, input=None, timeout=None):
		disk = Disk.current
		if self.returncode is not None:
			return None, None
		if self._program not in ('dot', 'dot.exe'):
			self.returncode = 0
			return None, None
		if input is None and self.stdin is not None:
			input = self.stdin.text
		out, err = self._layout(disk, input)
		if not self._capture:
			return None, None
		return (out, err) if self._text else (out.encode(), err.encode())

	def _view(self, disk):
		path = os.path.join(self._cwd, self.args[-1])
		try:
			with _real_open(path, 'rb') as file:
				content = file.read()
		except OSError:
			content = None
		disk.viewed.append({'path': os.path.normpath(path), 'content': content, 'program': self._program})

	def _layout(self, disk, input):
		offer('the layout program runs')
		disk.time += self._fault.get('latency', 5)
		kind, name, target = None, None, None
		arguments = self.args[1:]
		position = 0
		while position < len(arguments):
			argument = arguments[position]
			if argument.startswith('-T'):
				kind = argument[2:].split(':')[0]
			elif argument == '-o':
				position += 1
				target = arguments[position]
			elif argument.startswith('-o'):
				target = argument[2:]
			elif argument == '-O':
				target = ...
			elif not argument.startswith('-'):
				name = argument
			position += 1
		if kind not in FORMATS:
			self.returncode = 1
			return '', f'Format: "{kind}" not recognized.\n'
		if name is not None:
			try:
				with _real_open(os.path.join(self._cwd, name), encoding='utf-8') as file:
					source = file.read()
			except OSError as error:
				self.returncode = 2
				return '', f"Error: dot: can't open {name}: {error}\n"
			if target is ...:
				target = f'{name}.{kind}'
		else:
			source = input if input is not None else ''
			if isinstance(source, bytes):
				source = source.decode('utf-8')
		image = Layout.image(source, kind)
		fault = self._fault.get('kind')
		self.returncode = 0
		errors = ''
		if fault == 'noise':
			disk.hit('layout program complains but succeeds')
			errors = 'Warning: some font was not found\n'
		elif fault in ('exit', 'signal'):
			self.returncode = self._fault.get('code', 1 if fault == 'exit' else -9)
			share = self._fault.get('share', 0)
			disk.hit(
				f'layout program {"fails" if fault == "exit" else "is killed"}, ' + ('partial output' if share else 'no output')
			)
			errors = 'Error: something went wrong\n' if fault == 'exit' else ''
			image = image[:len(image) * share // 100]
		if target is None:
			return image, errors
		if image or self.returncode == 0:
			try:
				with _real_open(os.path.join(self._cwd, target), 'w', encoding='utf-8') as file:
					file.write(image)
			except OSError as error:
				self.returncode = 1
				return '', f"Error: dot: can't open {target}: {error}\n"
		return '', errors


class FakePipe:
	def __init__(self, process):
		self._process = process
		self._room = process._fault.get('after', 0) if process._fault.get('kind') == 'pipe' else None
		self.text = None
		self.closed = False

	def write(self, data):
		if self._room is not None:
			self._room -= len(data)
			if self._room < 0:
				self._process.returncode = 1
				Disk.current.hit('layout program stops reading')
				raise BrokenPipeError(errno.EPIPE, 'Broken pipe')
		self.text = data if self.text is None else self.text + data
		return len(data)

	def flush(self):
		pass

	def close(self):
		self.closed = True


class Disk:
	"""Installs the seam for one simulated run."""
	current = None
	_hooked = False

	def __init__(self, folder, ctx=None):
		self.folder = os.path.realpath(folder)
		self.work = os.path.join(self.folder, 'work')
		self.temporary = os.path.join(self.folder, 'tmp')
		self.ctx = ctx
		self.faults = {}
		self.waiting = {}
		self.processes = []
		self.viewed = []
		self.escapes = []
		self.hits = []
		self.time = 0

	def plan(self, faults):
		"""faults: {'open' | 'layout' | 'viewer': [fault or None, ...]}, one for each use in turn."""
		self.faults = {key: list(value) for key, value in (faults or {}).items()}
		self.hits = []
		self.processes = []
		self.viewed = []

	def next_fault(self, what):
		waiting = self.faults.get(what)
		return waiting.pop(0) if waiting else None

	def fault_of(self, what, path):
		"""A fault that waits for the use of this file, whoever else is at work."""
		return self.waiting.pop((what, os.path.relpath(path, self.work)), None) if self.waiting else None

	def hit(self, what):
		self.hits.append(what)
		if self.ctx is not None:
			self.ctx.fault(what)

	def snapshot(self):
		"""Every file below the scratch folder, with its content."""
		result = {}
		for root, folders, files in os.walk(self.work):
			for name in folders:
				result[os.path.relpath(os.path.join(root, name), self.work) + '/'] = None
			for name in files:
				path = os.path.join(root, name)
				with _real_open(path, 'rb') as file:
					result[os.path.relpath(path, self.work)] = file.read()
		return result

	def _inside(self, path):
		try:
			path = os.path.realpath(os.fsdecode(path))
		except (TypeError, ValueError):
			return True
		return path == os.devnull or (path + os.sep).startswith(self.folder + os.sep)

	def _open(self, file, mode='r', buffering=-1, encoding=None, *args, **kwargs):
		if isinstance(file, int) or not set(mode) & set('wax+'):
			return _real_open(file, mode, buffering, encoding, *args, **kwargs)
		if not self._inside(file):
			self.escapes.append(f'write to {file}')
			raise Escape(f'write to {file}')
		offer('a file is opened')
		fault = self.fault_of('open', file) or self.next_fault('open')
		if fault is None or fault['kind'] == 'none':
			return _real_open(file, mode, buffering, encoding, *args, **kwargs)
		if fault['kind'] == 'open':
			number = getattr(errno, fault['errno'])
			self.hit(f'open fails: {fault["errno"]}')
			raise OSError(number, os.strerror(number), os.fspath(file))
		if 'b' in mode:
			return _real_open(file, mode, buffering, encoding, *args, **kwargs)
		return FaultyFile(file, fault, encoding, self)

	@classmethod
	def _audit(cls, event, args):
		disk = cls.current
		if disk is None:
			return
		if event == 'open':
			path, mode, flags = args
			if isinstance(path, int) or path is None:
				return
			writes = flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC) if isinstance(flags, int) else 0
			if writes and not disk._inside(path):
				disk.escapes.append(f'write to {path}')
				raise Escape(f'write to {path}')
		elif event in ('os.remove', 'os.rmdir', 'os.mkdir', 'os.rename', 'os.truncate', 'os.chmod', 'os.chown', 'os.link', 'os.symlink', 'shutil.rmtree'):
			for path in args[:2] if event in ('os.rename', 'os.link', 'os.symlink') else args[:1]:
				if isinstance(path, (str, bytes)) and not disk._inside(path):
					disk.escapes.append(f'{event} {path}')
					raise Escape(f'{event} {path}')
		elif event in ('os.system', 'os.exec', 'os.posix_spawn', 'os.fork', 'os.spawn', 'subprocess.Popen', 'os.kill', 'socket.connect'):
			disk.escapes.append(event)
			raise Escape(event)

	def __enter__(self):
		if not Disk._hooked:
			sys.addaudithook(Disk._audit)
			Disk._hooked = True
		for folder in (self.folder, self.work, self.temporary):
			os.makedirs(folder, exist_ok=True)
		self._before = os.getcwd(), tempfile.tempdir, os.environ.get('TMPDIR')
		tempfile.tempdir = self.temporary
		os.environ['TMPDIR'] = self.temporary
		os.chdir(self.work)
		Disk.current = self
		builtins.open = self._open
		subprocess.Popen = FakeProcess
		return self

	def __exit__(self, *args):
		builtins.open = _real_open
		subprocess.Popen = _real_popen
		Disk.current = None
		cwd, tempfile.tempdir, variable = self._before
		os.chdir(cwd)
		if variable is None:
			os.environ.pop('TMPDIR', None)
		else:
			os.environ['TMPDIR'] = variable

	def verify_contained(self, what):
		if self.escapes:
			raise Violation('touched-elsewhere', f'{what}: {self.escapes[0]}')


def empty(folder):
	"""Empties a folder of the simulator."""
	for root, folders, files in os.walk(folder, topdown=False):
		for name in files:
			os.unlink(os.path.join(root, name))
		for name in folders:
			os.rmdir(os.path.join(root, name))
