"""Reference answers about reachability, computed from the model's edges only."""


def neighbours(edges, forward=True):
	result = {}
	for key in edges:
		a, b = (key[0], key[1]) if forward else (key[1], key[0])
		result.setdefault(a, [])
		if b not in result[a]:
			result[a].append(b)
	return result


def distances(adjacent, start):
	"""Shortest number of edges (at least one) from start to every node that can be reached; start itself if in a loop."""
	found = {}
	frontier = [start]
	d = 0
	while frontier:
		d += 1
		following = []
		for node in frontier:
			for other in adjacent.get(node, ()):
				if other not in found:
					found[other] = d
					following.append(other)
		frontier = following
	return found


class Reach:
	def __init__(self, nodes, edges):
		self.nodes = list(nodes)
		forward, backward = neighbours(edges), neighbours(edges, False)
		self.descendants = {n: distances(forward, n) for n in self.nodes}
		self.ancestors = {n: distances(backward, n) for n in self.nodes}

	def in_loop(self, n):
		return n in self.descendants[n]

	def same_loop(self, a, b):
		return b in self.descendants[a] and a in self.descendants[b]

	def groups(self, found, start):
		result = {}
		for node, d in found.items():
			if node != start:
				result.setdefault(d, []).append(node)
		return result
