From 164a886fdb5b115c5dab7c9cb7618272ef6e5c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:10 +0000
Subject: [PATCH 01/35] fix: graphs with edges can be converted and added
 (raw_label was missing)

---
 abstract/_GraphObj.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/abstract/_GraphObj.py b/abstract/_GraphObj.py
index 31a9672..d61d245 100755
--- a/abstract/_GraphObj.py
+++ b/abstract/_GraphObj.py
@@ -103,6 +103,10 @@ class GraphObj:
 	def label(self, label):
 		self._label = label
 
+	@property
+	def raw_label(self):
+		return self._label
+
 	def display_label(self):
 		if self._label_converter is not None:
 			return self._label_converter(self.label)
-- 
2.43.0


From 748e38df6bcc3a88744dd58fbdee956a5dd6874d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:11 +0000
Subject: [PATCH 02/35] fix: converting a graph keeps the labels of its nodes
 (was a bound method)

---
 abstract/_GraphWithoutDisplay.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/abstract/_GraphWithoutDisplay.py b/abstract/_GraphWithoutDisplay.py
index 32f52b2..88f68c2 100755
--- a/abstract/_GraphWithoutDisplay.py
+++ b/abstract/_GraphWithoutDisplay.py
@@ -527,7 +527,7 @@ class GraphWithoutDisplay(BasicGraph):
 		edges_list = []
 		for node in self.nodes:
 			nodes_dict[node.id] = {
-				'label': node.display_label_or_value,
+				'label': node.raw_label,
 				'value': node.value,
 				'style': node.style
 			}
-- 
2.43.0


From 8c9a6bcc1d64bfd481d080d0504e669115031bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:11 +0000
Subject: [PATCH 03/35] fix: converting or adding graphs does not hand out, and
 then change, the styles of the operands

---
 abstract/_GraphWithoutDisplay.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/abstract/_GraphWithoutDisplay.py b/abstract/_GraphWithoutDisplay.py
index 88f68c2..23d357b 100755
--- a/abstract/_GraphWithoutDisplay.py
+++ b/abstract/_GraphWithoutDisplay.py
@@ -529,7 +529,7 @@ class GraphWithoutDisplay(BasicGraph):
 			nodes_dict[node.id] = {
 				'label': node.raw_label,
 				'value': node.value,
-				'style': node.style
+				'style': node.style.copy() if node.has_style() else None
 			}
 
 			for edge in node.outward_edges:
@@ -540,7 +540,7 @@ class GraphWithoutDisplay(BasicGraph):
 						'id': edge.raw_id,
 						'label': edge.raw_label,
 						'value': edge.value,
-						'style': edge.style
+						'style': edge.style.copy() if edge.has_style() else None
 					}
 				])
 
@@ -550,11 +550,12 @@ class GraphWithoutDisplay(BasicGraph):
 			'colour_scheme': self._colour_scheme,
 			'label': self._label,
 			'label_url': self._label_url,
-			'node_styles': self._node_style_overwrites,
-			'edge_styles': self._edge_style_overwrites,
+			'node_styles': self._node_style_overwrites.copy(),
+			'edge_styles': self._edge_style_overwrites.copy(),
 			'global_node_style': self._global_node_style_overwrite,
 			'global_edge_style': self._global_edge_style_overwrite,
-			'node_colours': self._node_colour_overwrites,
+			'node_colours': self._node_colour_overwrites.copy(),
+			'edge_colours': self._edge_colour_overwrites.copy(),
 			'nodes': nodes_dict,
 			'edges': edges_list
 		}
-- 
2.43.0


From 021a60d602aa08cd9dbccbe489467ce267d3e0cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:12 +0000
Subject: [PATCH 04/35] fix: adding graphs combines the values of both nodes,
 and keeps a falsy value

---
 abstract/_GraphWithoutDisplay.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/abstract/_GraphWithoutDisplay.py b/abstract/_GraphWithoutDisplay.py
index 23d357b..d24d887 100755
--- a/abstract/_GraphWithoutDisplay.py
+++ b/abstract/_GraphWithoutDisplay.py
@@ -635,8 +635,10 @@ class GraphWithoutDisplay(BasicGraph):
 
 		if add_values_function is None:
 			def add_values_function(x, y):
-				if x is None or y is None:
-					return x or y
+				if x is None:
+					return y
+				elif y is None:
+					return x
 				else:
 					return x + y
 
@@ -649,7 +651,7 @@ class GraphWithoutDisplay(BasicGraph):
 				for key in set(node1.keys()).union(node2.keys()):
 					if key in node1 and key in node2:
 						if key == 'value':
-							n[key] = add_values_function(node2[key], node2[key])
+							n[key] = add_values_function(node1[key], node2[key])
 						else:
 							n[key] = node1[key] or node2[key]
 					elif key in node1:
-- 
2.43.0


From a88cc96cc28056e58567658b144d9aa6baeab292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:12 +0000
Subject: [PATCH 05/35] fix: adding graphs keeps the order of nodes (depended
 on the hash seed)

---
 abstract/_GraphWithoutDisplay.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/abstract/_GraphWithoutDisplay.py b/abstract/_GraphWithoutDisplay.py
index d24d887..0260261 100755
--- a/abstract/_GraphWithoutDisplay.py
+++ b/abstract/_GraphWithoutDisplay.py
@@ -643,7 +643,7 @@ class GraphWithoutDisplay(BasicGraph):
 					return x + y
 
 		nodes = {}
-		for the_id in set(d1['nodes'].keys()).union(d2['nodes'].keys()):
+		for the_id in {**d1['nodes'], **d2['nodes']}:
 			if the_id in d1['nodes'] and the_id in d2['nodes']:
 				node1 = d1['nodes'][the_id]
 				node2 = d2['nodes'][the_id]
-- 
2.43.0


From df7ee77d47ce410338498c67a850e8124122fb0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:13 +0000
Subject: [PATCH 06/35] fix: styles can be copied and pickled (state was
 incomplete)

---
 abstract/styling/EdgeStyle.py | 2 ++
 abstract/styling/NodeStyle.py | 9 +++++++++
 2 files changed, 11 insertions(+)

diff --git a/abstract/styling/EdgeStyle.py b/abstract/styling/EdgeStyle.py
index bd2b272..8e556d6 100755
--- a/abstract/styling/EdgeStyle.py
+++ b/abstract/styling/EdgeStyle.py
@@ -116,6 +116,7 @@ class EdgeStyle:
 			'_opacity': self._opacity,
 			'_font': self._font,
 			'_text_colour': self._text_colour,
+			'_text_colour_based_on_main_colour': self._text_colour_based_on_main_colour,
 			'_text_size': self._text_size,
 			'_arrow_size': self._arrow_size,
 			'_label_style': self._label_style,
@@ -127,6 +128,7 @@ class EdgeStyle:
 		self._opacity = state['_opacity']
 		self._font = state['_font']
 		self._text_colour = state['_text_colour']
+		self._text_colour_based_on_main_colour = state['_text_colour_based_on_main_colour']
 		self._text_size = state['_text_size']
 		self._arrow_size = state['_arrow_size']
 		self._label_style = state['_label_style']
diff --git a/abstract/styling/NodeStyle.py b/abstract/styling/NodeStyle.py
index d48223d..832a66b 100755
--- a/abstract/styling/NodeStyle.py
+++ b/abstract/styling/NodeStyle.py
@@ -166,6 +166,11 @@ class NodeStyle:
 			'_colour': self._colour,
 			'_fill_colour': self._fill_colour,
 			'_border_colour': self._border_colour,
+			'_fill_colour_based_on_main_colour': self._fill_colour_based_on_main_colour,
+			'_border_colour_based_on_main_colour': self._border_colour_based_on_main_colour,
+			'_text_colour_based_on_main_colour': self._text_colour_based_on_main_colour,
+			'_lighter_fill': self._lighter_fill,
+			'_opacity': self._opacity,
 			'_font': self._font,
 			'_text_colour': self._text_colour,
 			'_text_size': self._text_size,
@@ -177,6 +182,10 @@ class NodeStyle:
 		self._colour = state['_colour']
 		self._fill_colour = state['_fill_colour']
 		self._border_colour = state['_border_colour']
+		self._fill_colour_based_on_main_colour = state['_fill_colour_based_on_main_colour']
+		self._border_colour_based_on_main_colour = state['_border_colour_based_on_main_colour']
+		self._text_colour_based_on_main_colour = state['_text_colour_based_on_main_colour']
+		self._lighter_fill = state['_lighter_fill']
 		self._opacity = state['_opacity']
 		self._font = state['_font']
 		self._text_colour = state['_text_colour']
-- 
2.43.0


From 69577778a3c42e4c70a5d34fb7c4c547c77439c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:13 +0000
Subject: [PATCH 07/35] fix: copying a style keeps all of its settings

---
 abstract/styling/EdgeStyle.py | 2 +-
 abstract/styling/NodeStyle.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/abstract/styling/EdgeStyle.py b/abstract/styling/EdgeStyle.py
index 8e556d6..70270e5 100755
--- a/abstract/styling/EdgeStyle.py
+++ b/abstract/styling/EdgeStyle.py
@@ -56,7 +56,7 @@ class EdgeStyle:
 		result = self.__class__(
 			colour=self._colour, opacity=self._opacity,
 			font=self._font, text_colour=self._text_colour, text_size=self._text_size,
-			arrow_size=self._arrow_size, line_width=self._line_width
+			arrow_size=self._arrow_size, label_style=self._label_style, line_width=self._line_width
 		)
 		result._text_colour_based_on_main_colour = self._text_colour_based_on_main_colour
 		return result
diff --git a/abstract/styling/NodeStyle.py b/abstract/styling/NodeStyle.py
index 832a66b..0717642 100755
--- a/abstract/styling/NodeStyle.py
+++ b/abstract/styling/NodeStyle.py
@@ -89,7 +89,7 @@ class NodeStyle:
 		result = self.__class__(
 			colour=self._colour, fill_colour=self._fill_colour, border_colour=self._border_colour,
 			opacity=self._opacity, font=self._font, text_colour=self._text_colour, text_size=self._text_size,
-			shape=self._shape, shape_style=self._shape_style
+			shape=self._shape, shape_style=self._shape_style, lighter_fill=self._lighter_fill
 		)
 		result._fill_colour_based_on_main_colour = self._fill_colour_based_on_main_colour
 		result._text_colour_based_on_main_colour = self._text_colour_based_on_main_colour
-- 
2.43.0


From 2a17a538ab30ece5e4cb9435a351d81395cf500b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:13 +0000
Subject: [PATCH 08/35] fix: copied, filtered and unpickled graphs keep their
 settings and can be rendered

---
 abstract/_BasicGraph.py          | 4 +++-
 abstract/_GraphWithoutDisplay.py | 8 ++++++++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/abstract/_BasicGraph.py b/abstract/_BasicGraph.py
index 040afaa..2542526 100755
--- a/abstract/_BasicGraph.py
+++ b/abstract/_BasicGraph.py
@@ -31,7 +31,9 @@ class BasicGraph:
 		self._edge_label_converter = edge_label_converter
 		# if a dictionary or an object with a __graph__() method is passed use that to create the graph
 
-	_STATE_ATTRIBUTES = ['_nodes_dict', '_is_strict', '_ordering', '_node_counter']
+	_STATE_ATTRIBUTES = [
+		'_nodes_dict', '_is_strict', '_ordering', '_node_counter', '_node_label_converter', '_edge_label_converter'
+	]
 
 	#  for pickling and copying
 	def __getstate__(self) -> Dict:
diff --git a/abstract/_GraphWithoutDisplay.py b/abstract/_GraphWithoutDisplay.py
index 0260261..070be6b 100755
--- a/abstract/_GraphWithoutDisplay.py
+++ b/abstract/_GraphWithoutDisplay.py
@@ -108,6 +108,14 @@ class GraphWithoutDisplay(BasicGraph):
 		if obj:
 			self.append(obj=obj)
 
+	_STATE_ATTRIBUTES = BasicGraph._STATE_ATTRIBUTES + [
+		'_background_colour', '_direction', '_colour_scheme', '_stylist', '_style_overwrite_allowed',
+		'_global_node_style_overwrite', '_global_edge_style_overwrite',
+		'_node_style_overwrites', '_edge_style_overwrites', '_node_colour_overwrites', '_edge_colour_overwrites',
+		'_label', '_label_location', '_label_colour', '_label_url', '_label_background_colour',
+		'_tooltip', '_font', '_font_size', '_kwargs'
+	]
+
 	def __getstate__(self) -> Dict:
 		"""
 		Returns the state of the graph for pickling.
-- 
2.43.0


From 23da733ed054fd5a3417f942ad844cb2159c5888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:57 +0000
Subject: [PATCH 09/35] fix: add_node accepts integer names as get_node does,
 returns a node it already has, and reports an unusable name

---
 abstract/_BasicGraph.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/abstract/_BasicGraph.py b/abstract/_BasicGraph.py
index 2542526..8ae7c3f 100755
--- a/abstract/_BasicGraph.py
+++ b/abstract/_BasicGraph.py
@@ -277,7 +277,7 @@ class BasicGraph:
 		Returns:
 			Node: The created node.
 		"""
-		if isinstance(name, str):
+		if isinstance(name, (str, int)):
 			if name in self.nodes_dict:
 				if if_node_exists == 'ignore':
 					pass
@@ -308,7 +308,7 @@ class BasicGraph:
 			if node.id in self.nodes_dict:
 				# if the node is already in the graph and node.graph is self then do nothing
 				if node.graph is self and self.nodes_dict[node.id] is node:
-					pass
+					return node
 				else:
 					raise ValueError(f'node with id "{node.id}" is already in a graph!')
 			else:
@@ -320,7 +320,7 @@ class BasicGraph:
 				self.nodes_dict[node.id] = node
 				return node
 		else:
-			raise TypeError(f'node of type {type(node)} is not supported!')
+			raise TypeError(f'node of type {type(name)} is not supported!')
 
 	def remove_node(self, node: Union[str, Node]):
 		"""
-- 
2.43.0


From 1b5cf6767e74a370a319e02057724a7f79220878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:57 +0000
Subject: [PATCH 10/35] fix: from_object adds every relative before it connects
 them

---
 abstract/_BasicGraph.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/abstract/_BasicGraph.py b/abstract/_BasicGraph.py
index 8ae7c3f..abc3262 100755
--- a/abstract/_BasicGraph.py
+++ b/abstract/_BasicGraph.py
@@ -135,23 +135,22 @@ class BasicGraph:
 			BasicGraph: The created graph.
 		"""
 		graph = cls(strict=strict)
-		graph.add_node(name=obj.__hash__(), label=str(obj))
 		descendants = get_descendants(obj=obj, distance=False, max_depth=max_depth)
 		ancestors = get_ancestors(obj=obj, distance=False, max_height=max_height)
+		for relative in [obj] + descendants + ancestors:
+			graph.add_node(name=relative.__hash__(), label=str(relative), if_node_exists='ignore')
 
 		obj_and_descendants = [obj] + descendants
 		for child in descendants:
 			for parent in child.__parents__():
 				if parent in obj_and_descendants:
-					graph.add_node(name=child.__hash__(), label=str(child))
-					graph.connect(start=parent.__hash__(), end=child.__hash__())
+					graph.connect(start=parent.__hash__(), end=child.__hash__(), if_edge_exists='ignore')
 
 		obj_and_ancestors = [obj] + ancestors
 		for parent in ancestors:
 			for child in parent.__children__():
 				if child in obj_and_ancestors:
-					graph.add_node(name=parent.__hash__(), label=str(parent))
-					graph.connect(start=parent.__hash__(), end=child.__hash__())
+					graph.connect(start=parent.__hash__(), end=child.__hash__(), if_edge_exists='ignore')
 
 		return graph
 
-- 
2.43.0


From 2c05b76d3a80b4232f834bdfd6a46e970515cb84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:58 +0000
Subject: [PATCH 11/35] fix: ancestors and descendants are grouped by their
 shortest distance, and limits do not lose any

---
 abstract/_BasicGraph.py        | 31 +++++++++++-------------------
 abstract/_group_by_distance.py | 30 +++++++++++++++++++++++++++++
 abstract/get_ancestors.py      | 35 +++++++++++++++-------------------
 abstract/get_descendants.py    | 35 +++++++++++++++-------------------
 4 files changed, 71 insertions(+), 60 deletions(-)
 create mode 100644 abstract/_group_by_distance.py

diff --git a/abstract/_BasicGraph.py b/abstract/_BasicGraph.py
index abc3262..1732f7a 100755
--- a/abstract/_BasicGraph.py
+++ b/abstract/_BasicGraph.py
@@ -4,6 +4,7 @@ from .styling.EdgeStyle import EdgeStyle
 from .styling.NodeStyle import NodeStyle
 from .get_ancestors import get_ancestors
 from .get_descendants import get_descendants
+from ._group_by_distance import group_by_distance
 from .parse_indentations_function import parse_indentations
 
 import warnings
@@ -511,23 +512,19 @@ class BasicGraph:
 		nodes_travelled.append(node)
 		parents = self.get_parents(node=node)
 		if len(parents) == 0:
-			return [], {}
+			return []
 		else:
 			ancestors = []
-			ancestors_dict = {1: []}
 			for parent in parents:
 				if parent not in ancestors:
 					ancestors.append(parent)
-					ancestors_dict[1].append(parent)
 
 				if parent not in nodes_travelled:
-					parent_ancestors, parent_ancestors_dict = self._get_ancestors(node=parent, nodes_travelled=nodes_travelled)
+					parent_ancestors = self._get_ancestors(node=parent, nodes_travelled=nodes_travelled)
 					for ancestor in parent_ancestors:
 						if ancestor not in ancestors:
 							ancestors.append(ancestor)
-							for distance in parent_ancestors_dict.keys():
-								ancestors_dict[distance+1] = parent_ancestors_dict[distance]
-			return ancestors, ancestors_dict
+			return ancestors
 
 	def get_ancestors(self, node, distance=True):
 		"""
@@ -535,11 +532,10 @@ class BasicGraph:
 		:param bool distance: if True, ancestors and their respective distance to the node will be returned as dict
 		:rtype: dict[int,list[Node]] or list[Node]
 		"""
-		ancestors, ancestors_dict = self._get_ancestors(node=node, nodes_travelled=None)
 		if distance:
-			return ancestors_dict
+			return group_by_distance(self.get_node(node), get_neighbours=self.get_parents, include_self=True)
 		else:
-			return ancestors
+			return self._get_ancestors(node=node, nodes_travelled=None)
 
 	def is_node_in_loop(self, node):
 		node = self.get_node(node)
@@ -570,22 +566,18 @@ class BasicGraph:
 		nodes_travelled.append(node)
 		children = self.get_children(node=node)
 		if len(children) == 0:
-			return [], {}
+			return []
 		else:
 			descendants = []
-			descendants_dict = {1: []}
 			for child in children:
 				if child not in nodes_travelled:
 					if child not in descendants:
 						descendants.append(child)
-						descendants_dict[1].append(child)
-					child_descendants, child_descendants_dict = self._get_descendants(node=child, nodes_travelled=nodes_travelled)
+					child_descendants = self._get_descendants(node=child, nodes_travelled=nodes_travelled)
 					for descendant in child_descendants:
 						if descendant not in descendants:
 							descendants.append(descendant)
-							for distance in child_descendants_dict.keys():
-								descendants_dict[distance+1] = child_descendants_dict[distance]
-			return descendants, descendants_dict
+			return descendants
 
 	def get_descendants(self, node, distance=True):
 		"""
@@ -593,11 +585,10 @@ class BasicGraph:
 		:param bool distance: if True, descendants and their respective distance to the node will be returned as dict
 		:rtype: dict[int,list[Node]] or list[Node]
 		"""
-		descendants, descendants_dict = self._get_descendants(node=node, nodes_travelled=None)
 		if distance:
-			return descendants_dict
+			return group_by_distance(self.get_node(node), get_neighbours=self.get_children)
 		else:
-			return descendants
+			return self._get_descendants(node=node, nodes_travelled=None)
 
 	def get_siblings(self, node):
 		"""
diff --git a/abstract/_group_by_distance.py b/abstract/_group_by_distance.py
new file mode 100644
index 0000000..6164635
--- /dev/null
+++ b/abstract/_group_by_distance.py
@@ -0,0 +1,30 @@
+from typing import Callable, Dict, List, Optional
+
+
+def group_by_distance(obj, get_neighbours: Callable, max_distance: Optional[int] = None, include_self: bool = False) -> Dict[int, List]:
+	"""
+	Groups the objects that can be reached from an object by their (shortest) distance to it.
+
+	Args:
+		obj: The object to start from.
+		get_neighbours (Callable): Function that returns the objects at distance one of an object.
+		max_distance (Optional[int]): Maximum distance from the object.
+		include_self (bool): If True, an object that can be reached from itself is one of the results.
+
+	Returns:
+		Dict[int, List]: The objects at each distance.
+	"""
+	found = [] if include_self else [obj]
+	result = {}
+	frontier = [obj]
+	while len(frontier) > 0 and (max_distance is None or len(result) < max_distance):
+		next_frontier = []
+		for member in frontier:
+			for neighbour in get_neighbours(member):
+				if neighbour not in found:
+					found.append(neighbour)
+					next_frontier.append(neighbour)
+		if len(next_frontier) > 0:
+			result[len(result) + 1] = next_frontier
+		frontier = next_frontier
+	return result
diff --git a/abstract/get_ancestors.py b/abstract/get_ancestors.py
index 6f554b4..e4ee572 100755
--- a/abstract/get_ancestors.py
+++ b/abstract/get_ancestors.py
@@ -1,44 +1,34 @@
-from typing import List, Dict, Optional, Tuple, Union
+from ._group_by_distance import group_by_distance
 
-def _get_ancestors(obj, _objects_travelled: Optional[List] = None, max_height: Optional[int] = None) -> Tuple[List, Dict]:
+from typing import List, Dict, Optional, Union
+
+def _get_ancestors(obj, _objects_travelled: Optional[List] = None) -> List:
 	"""
 	Retrieves the ancestors of an object.
 
 	Args:
 		obj: The object to retrieve ancestors from.
 		_objects_travelled (Optional[List]): List of objects already travelled.
-		max_height (Optional[int]): Maximum height for travelling through objects' parents.
 
 	Returns:
-		Tuple[List, Dict]: A tuple containing a list of ancestors and a dictionary of ancestors with their distances.
+		List: The ancestors.
 	"""
-	if max_height is not None:
-		if max_height <= 0:
-			return [], {}
-		else:
-			max_height -= 1
 	_objects_travelled = _objects_travelled or []
 	_objects_travelled.append(obj)
 	parents = obj.__parents__()
 	if len(parents) == 0:
-		return [], {}
+		return []
 	else:
 		ancestors = []
-		ancestors_dict = {1: []}
 		for parent in parents:
 			if parent not in _objects_travelled:
 				if parent not in ancestors:
 					ancestors.append(parent)
-					ancestors_dict[1].append(parent)
-				parent_ancestors, parent_ancestors_dict = _get_ancestors(
-					obj=parent, _objects_travelled=_objects_travelled, max_height=max_height
-				)
+				parent_ancestors = _get_ancestors(obj=parent, _objects_travelled=_objects_travelled)
 				for ancestor in parent_ancestors:
 					if ancestor not in ancestors:
 						ancestors.append(ancestor)
-						for distance in parent_ancestors_dict.keys():
-							ancestors_dict[distance + 1] = parent_ancestors_dict[distance]
-		return ancestors, ancestors_dict
+		return ancestors
 
 
 def get_ancestors(obj, distance: bool = True, max_height: Optional[int] = None) -> Union[List, Dict]:
@@ -53,8 +43,13 @@ def get_ancestors(obj, distance: bool = True, max_height: Optional[int] = None)
 	Returns:
 		Union[List, Dict]: A list of ancestors or a dictionary of ancestors with their distances.
 	"""
-	ancestors, ancestors_dict = _get_ancestors(obj=obj, _objects_travelled=None, max_height=max_height)
+	if not distance and max_height is None:
+		return _get_ancestors(obj=obj, _objects_travelled=None)
+
+	ancestors_dict = group_by_distance(
+		obj, get_neighbours=lambda relative: relative.__parents__(), max_distance=max_height
+	)
 	if distance:
 		return ancestors_dict
 	else:
-		return ancestors
+		return [ancestor for group in ancestors_dict.values() for ancestor in group]
diff --git a/abstract/get_descendants.py b/abstract/get_descendants.py
index 4771e5e..5940e78 100755
--- a/abstract/get_descendants.py
+++ b/abstract/get_descendants.py
@@ -1,44 +1,34 @@
-from typing import List, Dict, Optional, Tuple, Union
+from ._group_by_distance import group_by_distance
 
-def _get_descendants(obj, _objects_travelled: Optional[List] = None, max_depth: Optional[int] = None) -> Tuple[List, Dict]:
+from typing import List, Dict, Optional, Union
+
+def _get_descendants(obj, _objects_travelled: Optional[List] = None) -> List:
 	"""
 	Retrieves the descendants of an object.
 
 	Args:
 		obj: The object to retrieve descendants from.
 		_objects_travelled (Optional[List]): List of objects already travelled.
-		max_depth (Optional[int]): Maximum depth for travelling through objects' children.
 
 	Returns:
-		Tuple[List, Dict]: A tuple containing a list of descendants and a dictionary of descendants with their distances.
+		List: The descendants.
 	"""
-	if max_depth is not None:
-		if max_depth <= 0:
-			return [], {}
-		else:
-			max_depth -= 1
 	_objects_travelled = _objects_travelled or []
 	_objects_travelled.append(obj)
 	children = obj.__children__()
 	if len(children) == 0:
-		return [], {}
+		return []
 	else:
 		descendants = []
-		descendants_dict = {1: []}
 		for child in children:
 			if child not in _objects_travelled:
 				if child not in descendants:
 					descendants.append(child)
-					descendants_dict[1].append(child)
-				child_descendants, child_descendants_dict = _get_descendants(
-					obj=child, _objects_travelled=_objects_travelled, max_depth=max_depth
-				)
+				child_descendants = _get_descendants(obj=child, _objects_travelled=_objects_travelled)
 				for descendant in child_descendants:
 					if descendant not in descendants:
 						descendants.append(descendant)
-						for distance in child_descendants_dict.keys():
-							descendants_dict[distance + 1] = child_descendants_dict[distance]
-		return descendants, descendants_dict
+		return descendants
 
 
 def get_descendants(obj, distance: bool = True, max_depth: Optional[int] = None) -> Union[List, Dict]:
@@ -53,8 +43,13 @@ def get_descendants(obj, distance: bool = True, max_depth: Optional[int] = None)
 	Returns:
 		Union[List, Dict]: A list of descendants or a dictionary of descendants with their distances.
 	"""
-	descendants, descendants_dict = _get_descendants(obj=obj, _objects_travelled=None, max_depth=max_depth)
+	if not distance and max_depth is None:
+		return _get_descendants(obj=obj, _objects_travelled=None)
+
+	descendants_dict = group_by_distance(
+		obj, get_neighbours=lambda relative: relative.__children__(), max_distance=max_depth
+	)
 	if distance:
 		return descendants_dict
 	else:
-		return descendants
+		return [descendant for group in descendants_dict.values() for descendant in group]
-- 
2.43.0


From 40743e84d303acacd5ea79505d7ddbda6e02ff4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:25 +0000
Subject: [PATCH 12/35] fix: filter follows only the direction it is given

---
 abstract/_BasicGraph.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/abstract/_BasicGraph.py b/abstract/_BasicGraph.py
index 1732f7a..c9bf53a 100755
--- a/abstract/_BasicGraph.py
+++ b/abstract/_BasicGraph.py
@@ -82,11 +82,11 @@ class BasicGraph:
 			node = self.get_node(node=x)
 			name = node.name
 			relatives[name] = 1
-			if direction == 'to' or 'to_and_from':
+			if direction in ('to', 'to_and_from'):
 				for ancestor in node.ancestors:
 					relatives[ancestor.name] = 1
 
-			if direction == 'from' or 'to_and_from':
+			if direction in ('from', 'to_and_from'):
 				for descendant in node.descendants:
 					relatives[descendant.name] = 1
 
-- 
2.43.0


From cd048370913bc8d7de7b55797768da427369de2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:25 +0000
Subject: [PATCH 13/35] fix: saving a graph uses the format of the path (was
 always pdf)

---
 abstract/_GraphWithoutDisplay.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/abstract/_GraphWithoutDisplay.py b/abstract/_GraphWithoutDisplay.py
index 070be6b..d5cb878 100755
--- a/abstract/_GraphWithoutDisplay.py
+++ b/abstract/_GraphWithoutDisplay.py
@@ -740,7 +740,7 @@ class GraphWithoutDisplay(BasicGraph):
 			to_save = self.get_graphviz_source(
 				direction=direction, pad=pad, dpi=dpi, height=height, width=width, output_format=output_format
 			)
-			to_save.render(filename=filename, view=view)
+			to_save.render(filename=filename, view=view, format=output_format or None)
 			return self.get_graphviz_source(direction=direction, pad=pad, dpi=None)
 
 	"""
-- 
2.43.0


From 47c3ac8318b8e4de40465058a51aad753f0434df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:26 +0000
Subject: [PATCH 14/35] fix: graphs with a loop that is entered from outside of
 it can be rendered

---
 abstract/styling/stylize_with_pensieve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/abstract/styling/stylize_with_pensieve.py b/abstract/styling/stylize_with_pensieve.py
index 9764f88..78fbd87 100755
--- a/abstract/styling/stylize_with_pensieve.py
+++ b/abstract/styling/stylize_with_pensieve.py
@@ -19,7 +19,7 @@ def stylize_with_pensieve(
 	# roots or semi-roots
 	for node in graph.nodes:
 		if node.style is None:
-			if is_root_or_parents_are_in_loop(node):
+			if is_root_or_parents_are_in_loop(node) or node.is_in_loop():
 				colour = get_least_used_colour(colours_used)
 				if node_style is None:
 					style = NodeStyle(colour=colour)
-- 
2.43.0


From a4b09f839c9194b6d2afaaafebdd9867122698fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:26 +0000
Subject: [PATCH 15/35] fix: graphs with a global style or the random stylist
 can be rendered more than once

---
 abstract/_GraphWithoutDisplay.py     |  6 ++++--
 abstract/styling/stylize_randomly.py | 17 +++++++++--------
 2 files changed, 13 insertions(+), 10 deletions(-)

diff --git a/abstract/_GraphWithoutDisplay.py b/abstract/_GraphWithoutDisplay.py
index d5cb878..932a657 100755
--- a/abstract/_GraphWithoutDisplay.py
+++ b/abstract/_GraphWithoutDisplay.py
@@ -244,11 +244,13 @@ class GraphWithoutDisplay(BasicGraph):
 				smart_global_node_style_overwrite = self._global_node_style_overwrite
 
 			for node in self.nodes:
-				node.style = smart_global_node_style_overwrite
+				if self._style_overwrite_allowed or not node.has_style():
+					node.style = smart_global_node_style_overwrite
 
 		if self._global_edge_style_overwrite is not None:
 			for edge in self.edges:
-				edge.style = self._global_edge_style_overwrite
+				if self._style_overwrite_allowed or not edge.has_style():
+					edge.style = self._global_edge_style_overwrite
 
 		if self._stylist == 'pensieve':
 			stylize_with_pensieve(graph=self)
diff --git a/abstract/styling/stylize_randomly.py b/abstract/styling/stylize_randomly.py
index ce200d7..a941c8f 100755
--- a/abstract/styling/stylize_randomly.py
+++ b/abstract/styling/stylize_randomly.py
@@ -23,14 +23,15 @@ def stylize_randomly(
 
 	# all nodes
 	for node in nodes:
-		colour = get_least_used_colour(colours_used)
-		if node_style is None:
-			style = NodeStyle(colour=colour)
-		else:
-			style = node_style.copy()
-			style.reset_colours()
-			style.colour = colour
-		node.style = style
+		if node.style is None:
+			colour = get_least_used_colour(colours_used)
+			if node_style is None:
+				style = NodeStyle(colour=colour)
+			else:
+				style = node_style.copy()
+				style.reset_colours()
+				style.colour = colour
+			node.style = style
 
 	# branch edges
 	stylize_edges_based_on_nodes(graph=graph, edge_style=edge_style, edge_darkness_ratio=edge_darkness_ratio)
-- 
2.43.0


From cf516653b06be7e056db154c24845d5abdb98b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:27 +0000
Subject: [PATCH 16/35] fix: edge styles of a description are styles (were
 taken as colours), and may refer to an edge by its id as __graph__ does

---
 abstract/_GraphWithoutDisplay.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/abstract/_GraphWithoutDisplay.py b/abstract/_GraphWithoutDisplay.py
index 932a657..16be579 100755
--- a/abstract/_GraphWithoutDisplay.py
+++ b/abstract/_GraphWithoutDisplay.py
@@ -479,12 +479,12 @@ class GraphWithoutDisplay(BasicGraph):
 				if len(parent_child_edge_dict) == 2:
 					parent, child = parent_child_edge_dict
 					edge = self.connect(start=parent, end=child)
-					edges_dict[(parent, child)] = edge.id
+					edges_dict[(parent, child)] = edges_dict[edge.id] = edge.id
 
 				elif len(parent_child_edge_dict) == 3:
 					parent, child, edge_dict = parent_child_edge_dict
 					edge = self.connect(start=parent, end=child, **edge_dict)
-					edges_dict[(parent, child)] = edge.id
+					edges_dict[(parent, child)] = edges_dict[edge.id] = edge.id
 
 				elif len(parent_child_edge_dict) < 2:
 					raise ValueError('Too few objects in an edge definition!')
@@ -498,7 +498,7 @@ class GraphWithoutDisplay(BasicGraph):
 			if 'edge_styles' in dictionary:
 				for parent_child_edge_id, edge_style in dictionary['edge_styles'].items():
 					edge_id = edges_dict[parent_child_edge_id]
-					self._edge_colour_overwrites[edge_id] = edge_style
+					self._edge_style_overwrites[edge_id] = edge_style
 
 			if 'node_colours' in dictionary:
 				for name, colour in dictionary['node_colours'].items():
-- 
2.43.0


From b0430789ce526a55c300b3f561661c6dff35ea4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:27 +0000
Subject: [PATCH 17/35] fix: a graph can be rendered after a node or edge with
 an overwritten style was removed

---
 abstract/_GraphWithoutDisplay.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/abstract/_GraphWithoutDisplay.py b/abstract/_GraphWithoutDisplay.py
index 16be579..250c18c 100755
--- a/abstract/_GraphWithoutDisplay.py
+++ b/abstract/_GraphWithoutDisplay.py
@@ -257,13 +257,22 @@ class GraphWithoutDisplay(BasicGraph):
 		elif self._stylist == 'random':
 			stylize_randomly(graph=self)
 
+		# nodes and edges with an overwrite may have been removed from the graph
+		edges_dict = self.edges_dict
+
 		for name, style in self._node_style_overwrites.items():
+			if name not in self.nodes_dict:
+				continue
 			self.nodes_dict[name].style.complement(style)
 
 		for edge_id, style in self._edge_style_overwrites.items():
-			self.edges_dict[edge_id].style = style
+			if edge_id not in edges_dict:
+				continue
+			edges_dict[edge_id].style = style
 
 		for name, colour in self._node_colour_overwrites.items():
+			if name not in self.nodes_dict:
+				continue
 			node = self.nodes_dict[name]
 			style = node.style.copy()
 			style.reset_colours()
@@ -271,7 +280,9 @@ class GraphWithoutDisplay(BasicGraph):
 			node.style = style
 
 		for edge_id, colour in self._edge_colour_overwrites.items():
-			edge = self.edges_dict[edge_id]
+			if edge_id not in edges_dict:
+				continue
+			edge = edges_dict[edge_id]
 			_ = edge.style.colour
 			style = edge.style.copy()
 			style.reset_colours()
-- 
2.43.0


From 43cc05b9b9984fc99e37172ba495d7b2302b6e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:28 +0000
Subject: [PATCH 18/35] fix: a seeded random graph does not depend on, or
 reset, the global random generator

---
 abstract/_GraphWithoutDisplay.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/abstract/_GraphWithoutDisplay.py b/abstract/_GraphWithoutDisplay.py
index 250c18c..a59d845 100755
--- a/abstract/_GraphWithoutDisplay.py
+++ b/abstract/_GraphWithoutDisplay.py
@@ -609,11 +609,11 @@ class GraphWithoutDisplay(BasicGraph):
 		for n in node_names:
 			graph.add_node(name=str(n))
 
-		if seed is not None:
-			random.seed(seed)
+		# a seeded graph has its own generator: neither it nor the random numbers of the caller disturb each other
+		generator = random if seed is None else random.Random(seed)
 		for n1 in node_names:
 			for n2 in node_names:
-				if random.uniform(0, 1) < connection_probability:
+				if generator.uniform(0, 1) < connection_probability:
 					if cycle:
 						graph.connect(start=str(n1), end=str(n2))
 					elif n1 < n2:
-- 
2.43.0


From 940a2dee4971dba710edf4690ddb461b37563039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:52 +0000
Subject: [PATCH 19/35] fix: the value of an edge changes only its own arrow,
 and need not be a number

---
 abstract/styling/stylize_edges_based_on_nodes.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/abstract/styling/stylize_edges_based_on_nodes.py b/abstract/styling/stylize_edges_based_on_nodes.py
index 299c341..c044953 100755
--- a/abstract/styling/stylize_edges_based_on_nodes.py
+++ b/abstract/styling/stylize_edges_based_on_nodes.py
@@ -7,13 +7,14 @@ def stylize_edges_based_on_nodes(graph, edge_style=None, edge_darkness_ratio=0.1
 			colour = edge.start.style.colour.darken(ratio=edge_darkness_ratio)
 
 			if edge_style is None:
-				edge_style = EdgeStyle(colour=colour)
+				style = EdgeStyle(colour=colour)
 			else:
-				edge_style = edge_style.copy()
-				edge_style.reset_colours()
-				edge_style.colour = colour
+				style = edge_style.copy()
+				style.reset_colours()
+				style.colour = colour
 
-			if edge.value is not None:
-				edge_style._arrow_size *= edge.value
+			# only a number can be shown as the size of the arrow
+			if isinstance(edge.value, (int, float)):
+				style._arrow_size *= edge.value
 
-			edge.style = edge_style
\ No newline at end of file
+			edge.style = style
-- 
2.43.0


From 5ca942c3a217d70fe6366b63becdd7a9f89018ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:53 +0000
Subject: [PATCH 20/35] fix: refusing a new value of a frozen node or edge does
 not change its label or style

---
 abstract/_BasicGraph.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/abstract/_BasicGraph.py b/abstract/_BasicGraph.py
index c9bf53a..f874516 100755
--- a/abstract/_BasicGraph.py
+++ b/abstract/_BasicGraph.py
@@ -287,6 +287,9 @@ class BasicGraph:
 					raise KeyError(f'duplicate node id:"{name}"!')
 
 				node = self.get_node(node=name)
+				# whatever can be refused is refused before anything is changed
+				if value is not None and node.is_frozen:
+					raise RuntimeError('GraphObj is frozen!')
 				if style is not None:
 					node.style = style
 				if label is not None:
@@ -691,6 +694,9 @@ class BasicGraph:
 				raise ValueError(f'Error! Edge {edge_id} already exists!')
 
 			edge = start.get_outward_edge(id=edge_id)
+			# whatever can be refused is refused before anything is changed
+			if value is not None and edge.is_frozen:
+				raise RuntimeError('GraphObj is frozen!')
 			if style is not None:
 				edge.style = style
 			if label is not None:
-- 
2.43.0


From f4342303d29d70762b4ae207bd467f645e897bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:53 +0000
Subject: [PATCH 21/35] fix: similarity compares the settings of styles, and
 graphs with other names or edges are just not similar

---
 abstract/Node.py        | 4 ++++
 abstract/_BasicGraph.py | 2 ++
 abstract/_GraphObj.py   | 7 ++++++-
 3 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/abstract/Node.py b/abstract/Node.py
index 63f52f1..ec95fe0 100755
--- a/abstract/Node.py
+++ b/abstract/Node.py
@@ -120,10 +120,14 @@ class Node(GraphObj):
 		if len(self._inward_edges_dict) != len(other._inward_edges_dict):
 			return False
 		for id, outward_edge in self._outward_edges_dict.items():
+			if id not in other._outward_edges_dict:
+				return False
 			other_outward_edge = other._outward_edges_dict[id]
 			if not outward_edge.is_similar_to(other=other_outward_edge):
 				return False
 		for id, inward_edge in self._inward_edges_dict.items():
+			if id not in other._inward_edges_dict:
+				return False
 			other_inward_edge = other._inward_edges_dict[id]
 			if not inward_edge.is_similar_to(other=other_inward_edge):
 				return False
diff --git a/abstract/_BasicGraph.py b/abstract/_BasicGraph.py
index f874516..ee94371 100755
--- a/abstract/_BasicGraph.py
+++ b/abstract/_BasicGraph.py
@@ -746,6 +746,8 @@ class BasicGraph:
 			return False
 
 		for name, node in self._nodes_dict.items():
+			if name not in other._nodes_dict:
+				return False
 			other_node = other._nodes_dict[name]
 			if not node.is_similar_to(other=other_node):
 				return False
diff --git a/abstract/_GraphObj.py b/abstract/_GraphObj.py
index d61d245..d44af4c 100755
--- a/abstract/_GraphObj.py
+++ b/abstract/_GraphObj.py
@@ -151,13 +151,18 @@ class GraphObj:
 		"""
 		condition_1 = self.id == other.id
 		condition_2 = self._value == other._value
-		condition_3 = self._style == other._style
+		condition_3 = self._style_state == other._style_state
 		condition_4 = self._parameters == other._parameters
 		return  condition_1 and condition_2 and condition_3 and condition_4
 
 	def has_style(self):
 		return self._style is not None
 
+	@property
+	def _style_state(self):
+		# for comparing the settings of two styles
+		return None if self._style is None else self._style.__getstate__()
+
 	@property
 	def style(self):
 		raise RuntimeError('this parent function is just a placeholder')
-- 
2.43.0


From 6fe64afab758e142c2a87e03020a9666f43c041f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:54 +0000
Subject: [PATCH 22/35] fix: a graph can be asked whether it contains a node

---
 abstract/_BasicGraph.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/abstract/_BasicGraph.py b/abstract/_BasicGraph.py
index ee94371..eb9728f 100755
--- a/abstract/_BasicGraph.py
+++ b/abstract/_BasicGraph.py
@@ -192,6 +192,8 @@ class BasicGraph:
 		Returns:
 			bool: True if the item is in the graph, False otherwise.
 		"""
+		if isinstance(item, Node):
+			return self._nodes_dict.get(item.id) is item
 		return item in self._nodes_dict
 
 	@property
-- 
2.43.0


From f1cd50977b644c6befeed25701dc958aa40eaccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:13 +0000
Subject: [PATCH 23/35] fix: an edit that fails or is interrupted does not
 leave an edge attached to one node only

---
 abstract/Edge.py        | 38 ++++++++++++++++++++++++++++++++++----
 abstract/_BasicGraph.py |  6 +++---
 2 files changed, 37 insertions(+), 7 deletions(-)

diff --git a/abstract/Edge.py b/abstract/Edge.py
index 8761318..f34887f 100755
--- a/abstract/Edge.py
+++ b/abstract/Edge.py
@@ -32,8 +32,7 @@ class Edge(GraphObj):
 		self._start = start
 		self._end = end
 		self.raw_id = id
-		start.append_outward_edge(edge=self)
-		end.append_inward_edge(edge=self)
+		self._attach()
 
 	@property
 	def _label_converter(self):
@@ -187,12 +186,43 @@ class Edge(GraphObj):
 			raise ValueError('Edge does not have an end!')
 		return self._end
 
+	def _attach(self):
+		"""Adds the edge to both of its nodes or, if that fails or is interrupted, to neither."""
+		outward, inward = self.start.outward_edges_dict, self.end.inward_edges_dict
+		outward_before, inward_before = outward.copy(), inward.copy()
+		try:
+			self.start.append_outward_edge(edge=self)
+			self.end.append_inward_edge(edge=self)
+		except BaseException:
+			self._restore(outward, outward_before)
+			self._restore(inward, inward_before)
+			raise
+
+	def detach(self):
+		"""Takes the edge from both of its nodes or, if that fails or is interrupted, from neither."""
+		edge_id = self.id
+		outward, inward = self.start.outward_edges_dict, self.end.inward_edges_dict
+		outward_before, inward_before = outward.copy(), inward.copy()
+		try:
+			self.start.remove_outward_edge(edge_id=edge_id)
+			self.end.remove_inward_edge(edge_id=edge_id)
+		except BaseException:
+			self._restore(outward, outward_before)
+			self._restore(inward, inward_before)
+			raise
+
+	@staticmethod
+	def _restore(edges_dict: Dict, before: Dict):
+		"""Brings a table of edges back to what it was, including its order."""
+		if len(edges_dict) != len(before):
+			edges_dict.clear()
+			edges_dict.update(before)
+
 	def remove_self(self):
 		"""Removes the edge from its start and end nodes."""
 		if self._start is None or self._end is None:
 			raise ValueError('Either start or end Node is missing!')
-		self.start.remove_outward_edge(edge_id=self.id)
-		self.end.remove_inward_edge(edge_id=self.id)
+		self.detach()
 		self._start = None
 		self._end = None
 		self._graph = None
diff --git a/abstract/_BasicGraph.py b/abstract/_BasicGraph.py
index eb9728f..a29f2fb 100755
--- a/abstract/_BasicGraph.py
+++ b/abstract/_BasicGraph.py
@@ -336,8 +336,9 @@ class BasicGraph:
 		"""
 		node = self.get_node(node=node)
 		node.remove_edges()
-		node._graph = None
+		# in this order: if it is interrupted in between, the graph does not list a node that has no graph
 		del self.nodes_dict[node.id]
+		node._graph = None
 
 	# edges
 	@property
@@ -728,8 +729,7 @@ class BasicGraph:
 		Args:
 			edge (Edge): The edge to disconnect.
 		"""
-		edge.start.remove_outward_edge(edge_id=edge.id)
-		edge.end.remove_inward_edge(edge_id=edge.id)
+		edge.detach()
 		edge._raw_id = (None, None, None)
 		edge._graph = None
 
-- 
2.43.0


From 453f0c82662ad13c45c64c9b2fd10f03b0bbef4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:13 +0000
Subject: [PATCH 24/35] fix: indented text may start with an empty line, and
 keeps repeated characters that look like its indent

---
 abstract/parse_indentations_function.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/abstract/parse_indentations_function.py b/abstract/parse_indentations_function.py
index 7c3e8c5..52fb042 100755
--- a/abstract/parse_indentations_function.py
+++ b/abstract/parse_indentations_function.py
@@ -15,6 +15,7 @@ def parse_indentations(lines: List[str], indent: Optional[str] = None) -> Genera
 	"""
 	regex = re.compile(r'^(?P<indent>(?: {4})*)(?P<name>\S.*)')
 	stack = []
+	level = 0
 
 	for index, line in enumerate(lines):
 		line = line.rstrip('\n')
@@ -22,7 +23,8 @@ def parse_indentations(lines: List[str], indent: Optional[str] = None) -> Genera
 			if line.startswith('\t') or line.startswith(' '):
 				indent = re.findall(pattern=r'^[ \t]+', string=line)[0]
 		if indent is not None:
-			line = line.replace(indent, " " * 4, len(line) - len(line.lstrip(indent)))
+			indentation = line[:len(line) - len(line.lstrip(indent))]
+			line = indentation.replace(indent, " " * 4) + line[len(indentation):]
 		if len(line) > 0:
 			match = regex.match(line)
 			if not match:
-- 
2.43.0


From dbf7ff55a8b74d9c6083836633736ec025270d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:14 +0000
Subject: [PATCH 25/35] fix: a graph without a label can be converted, and
 converting does not lengthen the label

---
 abstract/_GraphWithoutDisplay.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/abstract/_GraphWithoutDisplay.py b/abstract/_GraphWithoutDisplay.py
index a59d845..fc49bc1 100755
--- a/abstract/_GraphWithoutDisplay.py
+++ b/abstract/_GraphWithoutDisplay.py
@@ -456,7 +456,11 @@ class GraphWithoutDisplay(BasicGraph):
 				self._ordering = dictionary['ordering']
 
 			if 'label' in dictionary:
-				self._label = '\n' + dictionary['label']
+				label = dictionary['label']
+				# the label of a converted graph is already on a line of its own
+				if label is not None and not label.startswith('\n'):
+					label = '\n' + label
+				self._label = label
 
 			if 'tooltip' in dictionary:
 				self._tooltip = dictionary['tooltip']
-- 
2.43.0


From 3401bb21ca745970fdc47d536641fde9b0a0dae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:23 +0000
Subject: [PATCH 26/35] fix: a removed node that is added again belongs to the
 graph (had no graph and could not be used)

---
 abstract/_BasicGraph.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/abstract/_BasicGraph.py b/abstract/_BasicGraph.py
index a29f2fb..54127e4 100755
--- a/abstract/_BasicGraph.py
+++ b/abstract/_BasicGraph.py
@@ -322,6 +322,9 @@ class BasicGraph:
 						raise ValueError(f'node with id "{node.id}" is already in a graph but not in the graph dictionary: {self.nodes_dict.keys()}')
 					else:
 						raise ValueError(f'node with id "{node.id}" is already in a graph!')
+				# a node that was removed from a graph comes in as the last one, like a new node
+				node._graph = self
+				node._index = self.generate_node_index()
 				self.nodes_dict[node.id] = node
 				return node
 		else:
-- 
2.43.0


From 4b94e004d81e7bbb5fefb5960066cfc24e873e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:20 +0000
Subject: [PATCH 27/35] fix: an empty graph can be rendered with the node shape
 'auto'

---
 abstract/_GraphWithoutDisplay.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/abstract/_GraphWithoutDisplay.py b/abstract/_GraphWithoutDisplay.py
index fc49bc1..5de9a25 100755
--- a/abstract/_GraphWithoutDisplay.py
+++ b/abstract/_GraphWithoutDisplay.py
@@ -237,7 +237,7 @@ class GraphWithoutDisplay(BasicGraph):
 			smart_global_node_style_overwrite = None
 			if 'shape' in self._global_node_style_overwrite:
 				if self._global_node_style_overwrite['shape'].lower().startswith('auto'):
-					if max([len(str(node.name)) for node in self.nodes]) < 3:
+					if max([len(str(node.name)) for node in self.nodes], default=0) < 3:
 						smart_global_node_style_overwrite = self._global_node_style_overwrite.copy()
 						smart_global_node_style_overwrite['shape'] = 'circle'
 			if smart_global_node_style_overwrite is None:
@@ -294,7 +294,7 @@ class GraphWithoutDisplay(BasicGraph):
 			smart_global_node_style_overwrite = None
 			if 'shape' in self._global_node_style_overwrite:
 				if self._global_node_style_overwrite['shape'].lower().startswith('auto'):
-					if max([len(str(node.name)) for node in self.nodes]) < 3:
+					if max([len(str(node.name)) for node in self.nodes], default=0) < 3:
 						smart_global_node_style_overwrite = self._global_node_style_overwrite.copy()
 						smart_global_node_style_overwrite['shape'] = 'circle'
 			if smart_global_node_style_overwrite is None:
-- 
2.43.0


From e029890a004a087bed187526b41ac42d435b862d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:15 +0000
Subject: [PATCH 28/35] fix: rendering does not write into style objects that
 other nodes, edges or graphs share

---
 abstract/_GraphWithoutDisplay.py | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/abstract/_GraphWithoutDisplay.py b/abstract/_GraphWithoutDisplay.py
index 5de9a25..ad9f5ac 100755
--- a/abstract/_GraphWithoutDisplay.py
+++ b/abstract/_GraphWithoutDisplay.py
@@ -231,6 +231,20 @@ class GraphWithoutDisplay(BasicGraph):
 		"""
 		return {edge.id: edge.style for node in self.nodes for edge in node.outward_edges if edge.has_style()}
 
+	@staticmethod
+	def _complement_style(item: Union[Node, Edge], settings: Dict):
+		"""
+		Complements the style of a node or an edge.
+
+		Args:
+			item (Union[Node, Edge]): The node or edge.
+			settings (Dict): The settings to add to its style.
+		"""
+		# the style object may be shared with other nodes and edges, even those of other graphs
+		style = item.style.copy()
+		style.complement(settings)
+		item._style = style
+
 	def stylize(self):
 		"""Applies styles to the nodes and edges in the graph."""
 		if self._global_node_style_overwrite is not None:
@@ -263,7 +277,7 @@ class GraphWithoutDisplay(BasicGraph):
 		for name, style in self._node_style_overwrites.items():
 			if name not in self.nodes_dict:
 				continue
-			self.nodes_dict[name].style.complement(style)
+			self._complement_style(self.nodes_dict[name], style)
 
 		for edge_id, style in self._edge_style_overwrites.items():
 			if edge_id not in edges_dict:
@@ -301,11 +315,11 @@ class GraphWithoutDisplay(BasicGraph):
 				smart_global_node_style_overwrite = self._global_node_style_overwrite
 
 			for node in self.nodes:
-				node.style.complement(smart_global_node_style_overwrite)
+				self._complement_style(node, smart_global_node_style_overwrite)
 
 		if self._global_edge_style_overwrite is not None:
 			for edge in self.edges:
-				edge.style.complement(self._global_edge_style_overwrite)
+				self._complement_style(edge, self._global_edge_style_overwrite)
 
 	def get_graphviz_header(
 			self, dpi: int = 300, direction: Optional[str] = None, 
-- 
2.43.0


From dca4b7608c17afb90fb05ac9c8b799711bfd45a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:32 +0000
Subject: [PATCH 29/35] fix: a graph whose overwritten edge was removed can be
 converted and merged (KeyError)

---
 abstract/_GraphWithoutDisplay.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/abstract/_GraphWithoutDisplay.py b/abstract/_GraphWithoutDisplay.py
index ad9f5ac..aaae78d 100755
--- a/abstract/_GraphWithoutDisplay.py
+++ b/abstract/_GraphWithoutDisplay.py
@@ -564,6 +564,7 @@ class GraphWithoutDisplay(BasicGraph):
 		"""
 		nodes_dict = {}
 		edges_list = []
+		edges_dict = self.edges_dict
 		for node in self.nodes:
 			nodes_dict[node.id] = {
 				'label': node.raw_label,
@@ -590,11 +591,16 @@ class GraphWithoutDisplay(BasicGraph):
 			'label': self._label,
 			'label_url': self._label_url,
 			'node_styles': self._node_style_overwrites.copy(),
-			'edge_styles': self._edge_style_overwrites.copy(),
+			# the overwrites of edges that were removed describe nothing (append would not find their edges)
+			'edge_styles': {
+				edge_id: style for edge_id, style in self._edge_style_overwrites.items() if edge_id in edges_dict
+			},
 			'global_node_style': self._global_node_style_overwrite,
 			'global_edge_style': self._global_edge_style_overwrite,
 			'node_colours': self._node_colour_overwrites.copy(),
-			'edge_colours': self._edge_colour_overwrites.copy(),
+			'edge_colours': {
+				edge_id: colour for edge_id, colour in self._edge_colour_overwrites.items() if edge_id in edges_dict
+			},
 			'nodes': nodes_dict,
 			'edges': edges_list
 		}
-- 
2.43.0


From 99c9a737afc9f9feeb227e3039576da7618b5158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:47 +0000
Subject: [PATCH 30/35] fix: a graph with overwritten styles can be rendered
 after it was added to, or converted from, another one

---
 abstract/_GraphWithoutDisplay.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/abstract/_GraphWithoutDisplay.py b/abstract/_GraphWithoutDisplay.py
index aaae78d..524a17b 100755
--- a/abstract/_GraphWithoutDisplay.py
+++ b/abstract/_GraphWithoutDisplay.py
@@ -78,6 +78,7 @@ class GraphWithoutDisplay(BasicGraph):
 
 		if isinstance(obj, self.__class__):
 			colour_scheme = colour_scheme or obj._colour_scheme
+			style_overwrite_allowed = style_overwrite_allowed or obj._style_overwrite_allowed
 		else:
 			try:
 				obj = obj.__graph__()
@@ -731,6 +732,8 @@ class GraphWithoutDisplay(BasicGraph):
 		result_representation = {
 			'strict': d1['strict'],
 			'ordering': d1['ordering'],
+			# the overwrites of either graph can only be applied where they are allowed
+			'style_overwrite_allowed': self._style_overwrite_allowed or other._style_overwrite_allowed,
 			'node_styles': node_styles,
 			'edge_styles': edge_styles,
 			'nodes': nodes,
-- 
2.43.0


From 7522875d4feb3d141194b3287071b3a445708ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:52 +0000
Subject: [PATCH 31/35] fix: a graph made from an object has all links among
 its relatives

---
 abstract/_BasicGraph.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/abstract/_BasicGraph.py b/abstract/_BasicGraph.py
index 54127e4..508fec5 100755
--- a/abstract/_BasicGraph.py
+++ b/abstract/_BasicGraph.py
@@ -138,19 +138,19 @@ class BasicGraph:
 		graph = cls(strict=strict)
 		descendants = get_descendants(obj=obj, distance=False, max_depth=max_depth)
 		ancestors = get_ancestors(obj=obj, distance=False, max_height=max_height)
-		for relative in [obj] + descendants + ancestors:
+		relatives = [obj] + descendants + ancestors
+		for relative in relatives:
 			graph.add_node(name=relative.__hash__(), label=str(relative), if_node_exists='ignore')
 
-		obj_and_descendants = [obj] + descendants
-		for child in descendants:
+		# any two of them can be linked, such as a parent of the object and a child of it
+		for child in relatives:
 			for parent in child.__parents__():
-				if parent in obj_and_descendants:
+				if parent in relatives:
 					graph.connect(start=parent.__hash__(), end=child.__hash__(), if_edge_exists='ignore')
 
-		obj_and_ancestors = [obj] + ancestors
 		for parent in ancestors:
 			for child in parent.__children__():
-				if child in obj_and_ancestors:
+				if child in relatives:
 					graph.connect(start=parent.__hash__(), end=child.__hash__(), if_edge_exists='ignore')
 
 		return graph
-- 
2.43.0


From c2f35f8fd27061877bedd8d34e8ff5e4a71a7d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:38 +0000
Subject: [PATCH 32/35] fix: a line indented by four spaces is refused when
 that is not a multiple of the indent

---
 abstract/parse_indentations_function.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/abstract/parse_indentations_function.py b/abstract/parse_indentations_function.py
index 52fb042..2c4483f 100755
--- a/abstract/parse_indentations_function.py
+++ b/abstract/parse_indentations_function.py
@@ -13,7 +13,6 @@ def parse_indentations(lines: List[str], indent: Optional[str] = None) -> Genera
 	Yields:
 		Tuple[int, int, str, Optional[int]]: A tuple containing the index, level, content, and parent index.
 	"""
-	regex = re.compile(r'^(?P<indent>(?: {4})*)(?P<name>\S.*)')
 	stack = []
 	level = 0
 
@@ -22,20 +21,18 @@ def parse_indentations(lines: List[str], indent: Optional[str] = None) -> Genera
 		if indent is None:
 			if line.startswith('\t') or line.startswith(' '):
 				indent = re.findall(pattern=r'^[ \t]+', string=line)[0]
-		if indent is not None:
-			indentation = line[:len(line) - len(line.lstrip(indent))]
-			line = indentation.replace(indent, " " * 4) + line[len(indentation):]
 		if len(line) > 0:
-			match = regex.match(line)
-			if not match:
+			# whatever is left of the indentation is not a whole indent, even if it is four spaces
+			level, content = 0, line
+			while indent and content.startswith(indent):
+				level, content = level + 1, content[len(indent):]
+			if len(content) == 0 or content[0].isspace():
 				raise ValueError(
-					'Indentation not a multiple of spaces or tabs'.format(line)
+					'Indentation not a multiple of spaces or tabs: "{0}"'.format(line)
 				)
-			level = len(match.group('indent')) // 4
 			if level > len(stack):
 				raise ValueError('Indentation too deep: "{0}"'.format(line))
 			stack[level:] = [index]
-			content = match.group('name')
 		else:
 			content = ''
 		yield index, level, content, (stack[level - 1] if level else None)
-- 
2.43.0


From 05e2f7c2538fd95cb608d30650f60b611497ff30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:07:24 +0000
Subject: [PATCH 33/35] fix: an HTML title stays HTML when a graph takes it
 over from another one or a description

---
 abstract/_GraphWithoutDisplay.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/abstract/_GraphWithoutDisplay.py b/abstract/_GraphWithoutDisplay.py
index 524a17b..2e2a985 100755
--- a/abstract/_GraphWithoutDisplay.py
+++ b/abstract/_GraphWithoutDisplay.py
@@ -472,8 +472,8 @@ class GraphWithoutDisplay(BasicGraph):
 
 			if 'label' in dictionary:
 				label = dictionary['label']
-				# the label of a converted graph is already on a line of its own
-				if label is not None and not label.startswith('\n'):
+				# the label of a converted graph is already on a line of its own; an HTML label has to start with its markup
+				if label is not None and not label.startswith(('\n', '<')):
 					label = '\n' + label
 				self._label = label
 
-- 
2.43.0


From c6c003965deecbbbd3433a6b89f13b66fc71ccc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:05:54 +0000
Subject: [PATCH 34/35] fix: two different edges are unequal (were neither
 equal nor unequal)

---
 abstract/_GraphObj.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/abstract/_GraphObj.py b/abstract/_GraphObj.py
index d44af4c..81c8baa 100755
--- a/abstract/_GraphObj.py
+++ b/abstract/_GraphObj.py
@@ -142,7 +142,7 @@ class GraphObj:
 			raise TypeError(f'"{other}" is of type: {type(other)}')
 		if self.graph != other.graph:
 			raise ValueError('two GraphObj from different graphs cannot be compared')
-		return self.raw_id != other.raw_id
+		return self.id != other.id
 
 	def is_similar_to(self, other):
 		"""
-- 
2.43.0


From c7a4ff5e70876bd8d23f4e0535673ca8a603d5d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:05:54 +0000
Subject: [PATCH 35/35] fix: a graph with many paths can be rendered
 (inheriting colours took exponential time)

---
 abstract/styling/inherit_style.py | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/abstract/styling/inherit_style.py b/abstract/styling/inherit_style.py
index 0e12ff5..e3e4611 100755
--- a/abstract/styling/inherit_style.py
+++ b/abstract/styling/inherit_style.py
@@ -15,11 +15,22 @@ def get_diverging_number(i, n, reverse):
 	return sorted(generate_diverging_numbers(n), reverse=reverse)[i]
 
 
-def inherit_style(node, pale_ratio, divergence_ratio, main_style):
+def inherit_style(node, pale_ratio, divergence_ratio, main_style, inherited=None):
 	"""
 	:type node: Node
+	:type inherited: dict or None
+	:param inherited: what was inherited so far: the number of paths to a node can be exponential
 	:rtype: NodeStyle
 	"""
+	if inherited is None:
+		inherited = {}
+	key = node.id, divergence_ratio
+	if key not in inherited:
+		inherited[key] = _inherit_style(node, pale_ratio, divergence_ratio, main_style, inherited)
+	return inherited[key]
+
+
+def _inherit_style(node, pale_ratio, divergence_ratio, main_style, inherited):
 	if is_root_or_parents_are_in_loop(node):
 		if main_style is None:
 			return node.style.copy()
@@ -32,7 +43,8 @@ def inherit_style(node, pale_ratio, divergence_ratio, main_style):
 			rank = node.get_child_rank(parent=parent)
 			if main_style is None:
 				style = inherit_style(
-					node=parent, pale_ratio=pale_ratio, divergence_ratio=divergence_ratio, main_style=main_style
+					node=parent, pale_ratio=pale_ratio, divergence_ratio=divergence_ratio, main_style=main_style,
+					inherited=inherited
 				)
 			else:
 				style = main_style
@@ -50,7 +62,9 @@ def inherit_style(node, pale_ratio, divergence_ratio, main_style):
 			return new_style
 		else:
 			styles = [
-				inherit_style(node=parent, pale_ratio=pale_ratio, divergence_ratio=0, main_style=main_style)
+				inherit_style(
+					node=parent, pale_ratio=pale_ratio, divergence_ratio=0, main_style=main_style, inherited=inherited
+				)
 				for parent in node.parents
 				if not node.is_in_loop_with(parent)
 			]
-- 
2.43.0

