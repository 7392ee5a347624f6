"""Imports the code under test from /repo, with cooperative locks in case it has any of its own."""
import sys
import threading

import random  # noqa
import os  # noqa
import re  # noqa
import copy  # noqa
import pickle  # noqa
import hashlib  # noqa
import warnings  # noqa
import functools  # noqa
import logging  # noqa
import graphviz  # noqa
import colouration  # noqa
import base32hex  # noqa

from .core import REPO
from .mon import STEPPER

sys.dont_write_bytecode = True
sys.path.insert(0, REPO)

_Lock, _RLock = threading.Lock, threading.RLock


class CooperativeLock:
	"""A lock that, inside the simulator, gives the turn to another thread instead of blocking."""

	def __init__(self, make=_Lock):
		self._real = make()

	def acquire(self, blocking=True, timeout=-1):
		scheduler = STEPPER.scheduler
		if scheduler is None or not blocking or not scheduler.manages_current():
			return self._real.acquire(blocking, timeout)
		while not self._real.acquire(False):
			scheduler.blocked()
		return True

	def release(self):
		self._real.release()

	def locked(self):
		if self._real.acquire(False):
			self._real.release()
			return False
		return True

	def __enter__(self):
		self.acquire()
		return self

	def __exit__(self, *args):
		self.release()


threading.Lock = CooperativeLock
threading.RLock = lambda: CooperativeLock(_RLock)
try:
	import abstract
	from abstract import Graph, Node, Edge, get_ancestors, get_descendants
	from abstract.styling.NodeStyle import NodeStyle
	from abstract.styling.EdgeStyle import EdgeStyle
	from abstract.parse_indentations_function import parse_indentations
finally:
	threading.Lock, threading.RLock = _Lock, _RLock

assert abstract.__file__.startswith(REPO), abstract.__file__
