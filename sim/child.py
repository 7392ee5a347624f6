"""A second process of the simulated caller: restores snapshots, or repeats the same calls under another hash seed."""
import json
import os
import resource
import subprocess
import sys

from . import engine
from .core import StepBudgetExceeded, Violation, as_violation


def main():
	resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
	out = os.fdopen(os.dup(1), 'w', buffering=1)
	os.dup2(2, 1)
	sys.stdout = sys.stderr
	for line in sys.stdin:
		request = json.loads(line)
		module = engine.load(request['property'])
		if request.get('fork'):
			# a process in which nothing has happened yet
			out.flush()
			pid = os.fork()
			if pid:
				status = os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1])
				if status:
					raise RuntimeError(f'a forked process ended with {status}')
				continue
		try:
			answer = {'ok': module.in_child(request)}
		except Violation as violation:
			answer = {'violation': engine.describe(violation)}
		except StepBudgetExceeded as error:
			answer = {'violation': {'kind': 'hang', 'message': f'a call did not end within its step budget ({error})'}}
		except Exception as error:
			violation = as_violation(error)
			if violation is None:
				raise
			answer = {'violation': engine.describe(violation)}
		out.write(json.dumps(answer) + '\n')
		if request.get('fork'):
			out.flush()
			os._exit(0)


class Helper:
	def __init__(self, hash_seed):
		self.hash_seed = str(hash_seed)
		self.process = None

	def start(self):
		env = dict(os.environ, PYTHONHASHSEED=self.hash_seed)
		self.process = subprocess.Popen(
			[sys.executable, '-m', 'sim.child'], stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True, env=env
		)

	def request(self, message):
		if self.process is None:
			self.start()
		try:
			self.process.stdin.write(json.dumps(message) + '\n')
			self.process.stdin.flush()
			line = self.process.stdout.readline()
		except BrokenPipeError:
			line = ''
		if line == '':
			code = self.process.wait()
			self.process = None
			if code < 0:
				raise Violation('process-died', f'the second process died with signal {-code}')
			raise RuntimeError(f'the second process ended with {code}')
		answer = json.loads(line)
		if 'violation' in answer:
			raise Violation(answer['violation']['kind'], 'in the second process: ' + answer['violation']['message'])
		return answer['ok']

	def close(self):
		if self.process is not None:
			self.process.stdin.close()
			try:
				self.process.wait(5)
			except subprocess.TimeoutExpired:
				self.process.kill()
				self.process.wait()
			self.process = None


class Helpers:
	def __init__(self, hash_seeds):
		self.helpers = [Helper(seed) for seed in hash_seeds]

	def __getitem__(self, index):
		return self.helpers[index]

	def __len__(self):
		return len(self.helpers)

	def close(self):
		for helper in self.helpers:
			helper.close()


if __name__ == '__main__':
	try:
		main()
	except BaseException:
		import traceback
		traceback.print_exc()
		os._exit(70)
