From 6e959e094f536517226ff37a97dba7e90db083b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:03 +0000
Subject: [PATCH 01/75] fix: refused input_dim leaves nodes with a coupled
 output_dim unchanged

---
 mdp/nodes/ica_nodes.py        | 3 ++-
 mdp/nodes/misc_nodes.py       | 3 ++-
 mdp/nodes/neural_gas_nodes.py | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/mdp/nodes/ica_nodes.py b/mdp/nodes/ica_nodes.py
index 2526bdc..35a8457 100644
--- a/mdp/nodes/ica_nodes.py
+++ b/mdp/nodes/ica_nodes.py
@@ -129,11 +129,12 @@ class ICANode(mdp.Cumulator, mdp.Node, ProjectMatrixMixin):
 
 
     def _set_input_dim(self, n):
-        self._input_dim = n
+        # set the output dimension first: it is refused if it is inconsistent
         if self.whitened:
             self.output_dim = n
         elif self.white_comp is None:
             self.output_dim = n
+        self._input_dim = n
 
     def _stop_training(self):
         """Whiten data if needed and call the 'core' routine to perform ICA.
diff --git a/mdp/nodes/misc_nodes.py b/mdp/nodes/misc_nodes.py
index b73b0e6..4bc32d8 100644
--- a/mdp/nodes/misc_nodes.py
+++ b/mdp/nodes/misc_nodes.py
@@ -575,8 +575,9 @@ class EtaComputerNode(Node):
         self._initialized = 0
 
     def _set_input_dim(self, n):
-        self._input_dim = n
+        # set the output dimension first: it is refused if it is inconsistent
         self.output_dim = n
+        self._input_dim = n
 
     def _init_internals(self):
         input_dim = self.input_dim
diff --git a/mdp/nodes/neural_gas_nodes.py b/mdp/nodes/neural_gas_nodes.py
index d0ec7b9..bdbdb55 100644
--- a/mdp/nodes/neural_gas_nodes.py
+++ b/mdp/nodes/neural_gas_nodes.py
@@ -141,8 +141,9 @@ class GrowingNeuralGasNode(Node):
             self._add_edge(node1, node2)
 
     def _set_input_dim(self, n):
-        self._input_dim = n
+        # set the output dimension first: it is refused if it is inconsistent
         self.output_dim = n
+        self._input_dim = n
 
     def _add_node(self, pos):
         node = self.graph.add_node(_NGNodeData(pos))
-- 
2.43.0


From fa3e3e419bdf6a66b3363fedebe6e53ed9c53eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:25 +0000
Subject: [PATCH 02/75] fix: Flow training skips a None iterable for an already
 trained node

---
 mdp/linear_flows.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mdp/linear_flows.py b/mdp/linear_flows.py
index b07946d..8ea6f26 100644
--- a/mdp/linear_flows.py
+++ b/mdp/linear_flows.py
@@ -154,8 +154,8 @@ class Flow(object):
             err_str = ("\n! Node %d is training"
                        " but instead of iterable received 'None'." % nodenr)
             raise FlowException(err_str)
-        elif (data_iterable is None) and (not node.is_trainable()):
-            # skip training if node is not trainable
+        elif data_iterable is None:
+            # skip training if the node is not trainable, or already trained
             return
 
         try:
-- 
2.43.0


From 865e2c8baa213b3a740fa23b939a642c546abd6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:09 +0000
Subject: [PATCH 03/75] fix: refused += leaves a flow unchanged

---
 mdp/linear_flows.py        |  9 ++++++---
 mdp/linear_flows_online.py | 10 ++++++----
 2 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/mdp/linear_flows.py b/mdp/linear_flows.py
index 8ea6f26..44d7555 100644
--- a/mdp/linear_flows.py
+++ b/mdp/linear_flows.py
@@ -548,14 +548,17 @@ class Flow(object):
     def __iadd__(self, other):
         # append other to self
         if isinstance(other, Flow):
-            self.flow += other.flow
+            flow_copy = list(self.flow) + list(other.flow)
         elif isinstance(other, mdp.Node):
-            self.flow.append(other)
+            flow_copy = list(self.flow) + [other]
         else:
             err_str = ('can only concatenate flow or node'
                        ' (not \'%s\') to flow' % (type(other).__name__))
             raise TypeError(err_str)
-        self._check_nodes_consistency(self.flow)
+        # check dimension consistency
+        self._check_nodes_consistency(flow_copy)
+        # if no exception was raised, accept the new sequence
+        self.flow = flow_copy
         return self
 
     # public container methods
diff --git a/mdp/linear_flows_online.py b/mdp/linear_flows_online.py
index b8543f0..0d37ea7 100644
--- a/mdp/linear_flows_online.py
+++ b/mdp/linear_flows_online.py
@@ -305,15 +305,17 @@ class OnlineFlow(mdp.Flow):
     def __iadd__(self, other):
         # append other to self
         if isinstance(other, mdp.Flow):
-            self.flow += other.flow
+            flow_copy = list(self.flow) + list(other.flow)
         elif isinstance(other, mdp.Node):
-            self.flow.append(other)
+            flow_copy = list(self.flow) + [other]
         else:
             err_str = ('can only concatenate flow or node'
                        ' (not \'%s\') to flow' % type(other).__name__)
             raise TypeError(err_str)
-        self._check_compatibility(self.flow)
-        self._check_nodes_consistency(self.flow)
+        self._check_compatibility(flow_copy)
+        self._check_nodes_consistency(flow_copy)
+        # if no exception was raised, accept the new sequence
+        self.flow = flow_copy
         self._train_arg_keys_list, self._train_args_needed_list = self._get_required_train_args_from_flow(self.flow)
         return self
 
-- 
2.43.0


From f5b753bee80c093c05014428d3bb435ad01f79d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:09 +0000
Subject: [PATCH 04/75] fix: slice assignment to a flow accepts an iterator of
 nodes

---
 mdp/linear_flows.py        | 2 ++
 mdp/linear_flows_online.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/mdp/linear_flows.py b/mdp/linear_flows.py
index 44d7555..123d4ad 100644
--- a/mdp/linear_flows.py
+++ b/mdp/linear_flows.py
@@ -498,6 +498,8 @@ class Flow(object):
 
     def __setitem__(self, key, value):
         if isinstance(key, slice):
+            # the value may be an iterator, go through it only once
+            value = list(value)
             [self._check_value_type_isnode(item) for item in value]
         else:
             self._check_value_type_isnode(value)
diff --git a/mdp/linear_flows_online.py b/mdp/linear_flows_online.py
index 0d37ea7..743404a 100644
--- a/mdp/linear_flows_online.py
+++ b/mdp/linear_flows_online.py
@@ -255,6 +255,8 @@ class OnlineFlow(mdp.Flow):
 
     def __setitem__(self, key, value):
         if isinstance(key, slice):
+            # the value may be an iterator, go through it only once
+            value = list(value)
             [self._check_value_type_is_online_or_nontrainable_node(item) for item in value]
         else:
             self._check_value_type_is_online_or_nontrainable_node(value)
-- 
2.43.0


From c6efadbc6a9583399c6d577b7b44768b93c2d402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:09 +0000
Subject: [PATCH 05/75] fix: dimension consistency check of flows copes with an
 output dimension of zero

---
 mdp/linear_flows.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mdp/linear_flows.py b/mdp/linear_flows.py
index 123d4ad..f4b47f8 100644
--- a/mdp/linear_flows.py
+++ b/mdp/linear_flows.py
@@ -470,7 +470,7 @@ class Flow(object):
 
     def _check_dimension_consistency(self, out, inp):
         """Raise ValueError when both dimensions are set and different."""
-        if ((out and inp) is not None) and out != inp:
+        if (out is not None) and (inp is not None) and out != inp:
             errstr = "dimensions mismatch: %d != %d" % (out, inp)
             raise ValueError(errstr)
 
-- 
2.43.0


From 2c3b874b61a8d6377df70dfd92f9f0efd8283609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:47 +0000
Subject: [PATCH 06/75] fix: BiCheckpointFlow copes with checkpoints that
 return nothing

---
 bimdp/biflow.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bimdp/biflow.py b/bimdp/biflow.py
index c5e9395..f1508a8 100644
--- a/bimdp/biflow.py
+++ b/bimdp/biflow.py
@@ -607,7 +607,7 @@ class BiCheckpointFlow(BiFlow, mdp.CheckpointFlow):
                              msg_iterables[i_node], stop_messages[i_node])
             if i_node <= len(checkpoints) and checkpoints[i_node] is not None:
                 checkpoint_dict = checkpoints[i_node](self.flow[i_node])
-                if dict:
+                if checkpoint_dict:
                     self.__dict__.update(checkpoint_dict)
             if self.verbose:
                 print("training finished")
-- 
2.43.0


From 0a6b1c84acdc0e646561deb2614cc0dfd6d67019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:36 +0000
Subject: [PATCH 07/75] fix: VartimeCovarianceMatrix starts anew after fix,
 one-sample chunks are counted once

---
 mdp/utils/covariance.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mdp/utils/covariance.py b/mdp/utils/covariance.py
index dbf9f5f..7583d2c 100644
--- a/mdp/utils/covariance.py
+++ b/mdp/utils/covariance.py
@@ -265,7 +265,8 @@ class VartimeCovarianceMatrix(CovarianceMatrix):
         if dt is None:
             _dt = 1.
         elif type(dt) == numx.ndarray:
-            _dt = dt[-x.shape[0]+1:, None]
+            # the increments inside of this chunk
+            _dt = dt[dt.shape[0]-x.shape[0]+1:, None]
         else:
             _dt = dt
         sqdt = numx.sqrt(_dt)
@@ -335,6 +336,9 @@ class VartimeCovarianceMatrix(CovarianceMatrix):
         self._avg = None
         # number of observation so far during the training phase
         self._tlen = 0.
+        # number of observations and chunks so far during the training phase
+        self._steps = 0
+        self.tchunk = 0
 
         return cov_mtx, avg, tlen
 
-- 
2.43.0


From d90959e880a6f84364d036029f25b2dc5fef4e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:46 +0000
Subject: [PATCH 08/75] fix: inverting a node with unset dtype takes the dtype
 from the data instead of dropping imaginary parts

---
 mdp/signal_node.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mdp/signal_node.py b/mdp/signal_node.py
index 3cec90d..0321fc2 100644
--- a/mdp/signal_node.py
+++ b/mdp/signal_node.py
@@ -556,6 +556,10 @@ class Node(with_metaclass(NodeMetaclass, object)):
         # control the dimension of y
         self._check_output(y)
 
+        # set the dtype if necessary
+        if self.dtype is None:
+            self.dtype = y.dtype
+
     ### casting helper functions
 
     def _refcast(self, x):
-- 
2.43.0


From 03025d2cdd981bfa32f8a0378049106f7044c96a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:46 +0000
Subject: [PATCH 09/75] fix: Switchboard rejects negative connection indices

---
 mdp/hinet/switchboard.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mdp/hinet/switchboard.py b/mdp/hinet/switchboard.py
index c90f07e..0322e43 100644
--- a/mdp/hinet/switchboard.py
+++ b/mdp/hinet/switchboard.py
@@ -56,6 +56,9 @@ class Switchboard(mdp.Node):
             err = ("One or more switchboard connection "
                    "indices exceed the input dimension.")
             raise SwitchboardException(err)
+        if numx.nanmin(connections) < 0:
+            err = "One or more switchboard connection indices are negative."
+            raise SwitchboardException(err)
         # checks passed
         self.connections = numx.array(connections)
         output_dim = len(connections)
-- 
2.43.0


From fa3a9d4eac6e9772509f603c346853a001709386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:46 +0000
Subject: [PATCH 10/75] fix: MeanInverseSwitchboard keeps imaginary parts when
 inverting

---
 mdp/hinet/switchboard.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mdp/hinet/switchboard.py b/mdp/hinet/switchboard.py
index 0322e43..0c9cebb 100644
--- a/mdp/hinet/switchboard.py
+++ b/mdp/hinet/switchboard.py
@@ -110,7 +110,8 @@ class MeanInverseSwitchboard(Switchboard):
         """Take the mean of overlapping values."""
         n_y_cons = numx.bincount(self.connections)  # n. connections to y_i
         y_cons = numx.argsort(self.connections)  # x indices for y_i
-        y = numx.zeros((len(x), self.input_dim))
+        y = numx.zeros((len(x), self.input_dim),
+                       dtype=numx.result_type(x.dtype, float))
         i_x_counter = 0  # counter for processed x indices
         i_y = 0  # current y index
         while True:
-- 
2.43.0


From 779ecf8e3a3e34187780732b7f0fa3414f2eb141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:55 +0000
Subject: [PATCH 11/75] fix: Rectangular2dSwitchboard strict mode notices gaps
 between fields

---
 mdp/hinet/switchboard.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/mdp/hinet/switchboard.py b/mdp/hinet/switchboard.py
index 0c9cebb..a27f905 100644
--- a/mdp/hinet/switchboard.py
+++ b/mdp/hinet/switchboard.py
@@ -295,12 +295,15 @@ class Rectangular2dSwitchboard(ChannelSwitchboard):
         elif y_unused_channels < 0:
             y_unused_channels = in_channels_xy[1]
         self.unused_channels_xy = (x_unused_channels, y_unused_channels)
+        self.out_channels_xy = (x_out_channels, y_out_channels)
         for i, name in enumerate(["x", "y"]):
-            if self.unused_channels_xy[i] and not ignore_cover:
+            # fields further apart than their size leave gaps between them
+            gaps = (self.out_channels_xy[i] > 1 and
+                    field_spacing_xy[i] > field_channels_xy[i])
+            if (self.unused_channels_xy[i] or gaps) and not ignore_cover:
                 err = ("Channel fields do not "
                        "cover all input channels in %s-direction." % name)
                 raise Rectangular2dSwitchboardException(err)
-        self.out_channels_xy = (x_out_channels, y_out_channels)
         ## end of parameters checks
         # TODO: rewrite all this leveraging numpy?
         #    this might make the code much simpler
-- 
2.43.0


From 374c63ca692965b65828184ae69e3376cc99aec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:05 +0000
Subject: [PATCH 12/75] fix: FlowNode takes its output dimension from the
 internal nodes when there is no training

Executing a FlowNode around e.g. a QuadraticExpansionNode without preset
dimensions tried to set the output_dim to the input_dim and failed.
---
 mdp/hinet/flownode.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/mdp/hinet/flownode.py b/mdp/hinet/flownode.py
index a6a10f7..482ee42 100644
--- a/mdp/hinet/flownode.py
+++ b/mdp/hinet/flownode.py
@@ -82,7 +82,8 @@ class FlowNode(mdp.Node):
     def _set_output_dim(self, n):
         last_node = self._flow[-1]
         if len(self._flow) == 1:
-            self._flow[-1].output_dim = n
+            if last_node.output_dim is None:
+                last_node.output_dim = n
         elif last_node.output_dim is None:
             self._fix_nodes_dimensions()
             # check if it worked
@@ -130,6 +131,14 @@ class FlowNode(mdp.Node):
             types = types.intersection(node.get_supported_dtypes())
         return list(types)
 
+    def _pre_execution_checks(self, x):
+        """Try to get the output_dim from the internal nodes (without training
+        nothing else does this) and then perform normal checks."""
+        if self.output_dim is None and not self.is_training():
+            self._check_input(x)
+            self._fix_nodes_dimensions()
+        super(FlowNode, self)._pre_execution_checks(x)
+
     def is_trainable(self):
         return self._is_trainable
 
-- 
2.43.0


From e2332aa654305c8490e54dae8d354bb54e46cfe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:52 +0000
Subject: [PATCH 13/75] fix: FlowNode without training knows its output
 dimension once its input dimension is set

This replaces the check before the execution: an enclosing flow or layer needs
the output dimension as well.
---
 mdp/hinet/flownode.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/mdp/hinet/flownode.py b/mdp/hinet/flownode.py
index 482ee42..ff5ef4c 100644
--- a/mdp/hinet/flownode.py
+++ b/mdp/hinet/flownode.py
@@ -78,6 +78,12 @@ class FlowNode(mdp.Node):
         self._flow._check_nodes_consistency()
         # if we didn't fail here, go on
         self._input_dim = n
+        # without training phases nothing else determines the output_dim
+        if not self.is_training():
+            if self._flow[-1].output_dim is None:
+                self._fix_nodes_dimensions()
+            else:
+                self.output_dim = self._flow[-1].output_dim
 
     def _set_output_dim(self, n):
         last_node = self._flow[-1]
@@ -131,14 +137,6 @@ class FlowNode(mdp.Node):
             types = types.intersection(node.get_supported_dtypes())
         return list(types)
 
-    def _pre_execution_checks(self, x):
-        """Try to get the output_dim from the internal nodes (without training
-        nothing else does this) and then perform normal checks."""
-        if self.output_dim is None and not self.is_training():
-            self._check_input(x)
-            self._fix_nodes_dimensions()
-        super(FlowNode, self)._pre_execution_checks(x)
-
     def is_trainable(self):
         return self._is_trainable
 
-- 
2.43.0


From a6e35b37014122938ea887a56ebdc16e1c50ef0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:50 +0000
Subject: [PATCH 14/75] fix: remove_node also works for a node with an edge to
 itself

get_edges() lists such an edge twice (entering and leaving), so that the
second removal raised ValueError and left the graph half changed.
---
 mdp/graph/graph.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/mdp/graph/graph.py b/mdp/graph/graph.py
index 7f66e5e..57b1f4f 100644
--- a/mdp/graph/graph.py
+++ b/mdp/graph/graph.py
@@ -152,8 +152,11 @@ class Graph(object):
             errstr = 'This node is not part of the graph (%s)' % node
             raise GraphException(errstr)
 
-        # remove all edges containing this node
-        for edge in node.get_edges():
+        # remove all edges containing this node (an edge from the node to
+        # itself is removed with the entering edges)
+        for edge in node.get_edges_in():
+            self.remove_edge(edge)
+        for edge in node.get_edges_out():
             self.remove_edge(edge)
         # remove the node
         self.nodes.remove(node)
-- 
2.43.0


From 1ab8051c8ee078461ef0c0e27d01d75f8dd139ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:26 +0000
Subject: [PATCH 15/75] fix: deactivating an extension restores the node
 classes exactly

A failed activation (name collision, failing setup function) removed
attributes that the extension had not injected: those of another active
extension or the class's own ones. Own attributes were lost or inherited
ones were copied into a class when a superclass was extended too, static
methods came back as plain functions, and a failing activate_extensions
deactivated extensions that had been active before.
---
 mdp/extension.py | 106 ++++++++++++++++++++++++++---------------------
 1 file changed, 58 insertions(+), 48 deletions(-)

diff --git a/mdp/extension.py b/mdp/extension.py
index 21f765d..3362698 100644
--- a/mdp/extension.py
+++ b/mdp/extension.py
@@ -66,6 +66,10 @@ _TEARDOWN_FUNC_ATTR = "_extension_teardown"
 _extensions = dict()
 # set containing the names of the currently activated extensions
 _active_extensions = set()
+# attributes of node classes that are currently shadowed by an extension,
+# maps (node class, attribute name) to the original value in the class dict
+# (attributes which a class only inherits are not stored)
+_shadowed_attributes = dict()
 
 
 class ExtensionException(MDPException):
@@ -293,6 +297,17 @@ def get_active_extensions():
     # value is used in a for-loop (see deactivate_extensions function)
     return list(_active_extensions)
 
+def _get_original_attribute(node_cls, attr_name):
+    """Return a tuple that says if the class has the attribute when all
+    extensions are ignored, and its value (as stored in the class dict)."""
+    for cls in node_cls.__mro__:
+        if ORIGINAL_ATTR_PREFIX + attr_name in cls.__dict__:
+            return True, cls.__dict__[ORIGINAL_ATTR_PREFIX + attr_name]
+        if (attr_name in cls.__dict__ and
+            _EXTENSION_ATTR_PREFIX + attr_name not in cls.__dict__):
+            return True, cls.__dict__[attr_name]
+    return False, None
+
 def activate_extension(extension_name, verbose=False):
     """Activate the extension by injecting the extension methods."""
     if extension_name not in list(_extensions.keys()):
@@ -315,28 +330,29 @@ def activate_extension(extension_name, verbose=False):
                            (extension_name, attr_name, node_cls.__name__))
                 ## store the original attribute / make it available
                 ext_attr_name = _EXTENSION_ATTR_PREFIX + attr_name
-                if attr_name in dir(node_cls):
-                    if ext_attr_name in node_cls.__dict__:
-                        # two extensions override the same attribute
-                        err = ("Name collision for attribute '" +
-                               attr_name + "' between extension '" +
-                               getattr(node_cls, ext_attr_name)
-                               + "' and newly activated extension '" +
-                               extension_name + "'.")
-                        raise ExtensionException(err)
-                    # only overwrite the attribute if the extension is not
-                    # yet active on this class or its superclasses
-                    if ext_attr_name not in dir(node_cls):
-                        original_attr = getattr(node_cls, attr_name)
-                        if verbose:
-                            print ("extension %s: overwriting %s in %s" %
-                                (extension_name, attr_name, node_cls.__name__))
-                        setattr(node_cls, ORIGINAL_ATTR_PREFIX + attr_name,
-                                original_attr)
-                setattr(node_cls, attr_name, attr_value)
+                if ext_attr_name in node_cls.__dict__:
+                    # two extensions override the same attribute
+                    err = ("Name collision for attribute '" +
+                           attr_name + "' between extension '" +
+                           getattr(node_cls, ext_attr_name)
+                           + "' and newly activated extension '" +
+                           extension_name + "'.")
+                    raise ExtensionException(err)
+                has_original, original_attr = _get_original_attribute(
+                                                    node_cls, attr_name)
+                if has_original:
+                    if verbose:
+                        print ("extension %s: overwriting %s in %s" %
+                               (extension_name, attr_name, node_cls.__name__))
+                    setattr(node_cls, ORIGINAL_ATTR_PREFIX + attr_name,
+                            original_attr)
+                if attr_name in node_cls.__dict__:
+                    _shadowed_attributes[(node_cls, attr_name)] = (
+                                                node_cls.__dict__[attr_name])
                 # store to which extension this attribute belongs, this is also
                 # used as a flag that this is an extension attribute
                 setattr(node_cls, ext_attr_name, extension_name)
+                setattr(node_cls, attr_name, attr_value)
     except Exception:
         # make sure that an incomplete activation is reverted
         deactivate_extension(extension_name)
@@ -354,54 +370,48 @@ def deactivate_extension(extension_name, verbose=False):
             continue
         for attr_name in list(attributes.keys()):
             original_name = ORIGINAL_ATTR_PREFIX + attr_name
+            ext_attr_name = _EXTENSION_ATTR_PREFIX + attr_name
+            if node_cls.__dict__.get(ext_attr_name) != extension_name:
+                # this attribute was not injected by this extension
+                # (can happen if the activation failed)
+                continue
             if verbose:
                 print ("extension %s: removing %s from %s" %
                        (extension_name, attr_name, node_cls.__name__))
-            if original_name in node_cls.__dict__:
+            if (node_cls, attr_name) in _shadowed_attributes:
                 # restore the original attribute
                 if verbose:
                     print ("extension %s: restoring %s in %s" %
                            (extension_name, attr_name, node_cls.__name__))
+                setattr(node_cls, attr_name,
+                        _shadowed_attributes.pop((node_cls, attr_name)))
+            elif attr_name in node_cls.__dict__:
+                # no original attribute to restore, so simply delete
                 delattr(node_cls, attr_name)
-                original_attr = getattr(node_cls, original_name)
-                # Check if the attribute is defined by one of the super
-                # classes and test if the overwritten method is not that
-                # method, otherwise we would inject unwanted methods.
-                # Note: '==' tests identity for .__func__ and .__self__,
-                #    but .im_class does not matter in Python 2.6.
-                if all([getattr(x, attr_name, None) !=
-                           original_attr for x in node_cls.__mro__[1:]]):
-                    setattr(node_cls, attr_name, original_attr)
+            if original_name in node_cls.__dict__:
                 delattr(node_cls, original_name)
-            else:
-                try:
-                    # no original attribute to restore, so simply delete
-                    # might be missing if the activation failed
-                    delattr(node_cls, attr_name)
-                except AttributeError:
-                    pass
-            try:
-                # might be missing if the activation failed
-                delattr(node_cls, _EXTENSION_ATTR_PREFIX + attr_name)
-            except AttributeError:
-                pass
-    if _TEARDOWN_FUNC_ATTR in _extensions[extension_name]:
-        _extensions[extension_name][_TEARDOWN_FUNC_ATTR]()
-    _active_extensions.remove(extension_name)
+            delattr(node_cls, ext_attr_name)
+    try:
+        if _TEARDOWN_FUNC_ATTR in _extensions[extension_name]:
+            _extensions[extension_name][_TEARDOWN_FUNC_ATTR]()
+    finally:
+        _active_extensions.remove(extension_name)
 
 def activate_extensions(extension_names, verbose=False):
     """Activate all the extensions for the given names.
 
     extension_names -- Sequence of extension names.
     """
+    activated = []
     try:
         for extension_name in extension_names:
+            if extension_name in _active_extensions:
+                continue
             activate_extension(extension_name, verbose=verbose)
+            activated.append(extension_name)
     except:
-        # if something goes wrong deactivate all, otherwise we might be
-        # in an inconsistent state (e.g. methods for active extensions might
-        # have been removed)
-        deactivate_extensions(get_active_extensions())
+        # if something goes wrong deactivate the extensions activated so far
+        deactivate_extensions(activated)
         raise
 
 def deactivate_extensions(extension_names, verbose=False):
-- 
2.43.0


From 2a33365fb82fac37b2337b33cbcfba7df90ea92d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:26 +0000
Subject: [PATCH 16/75] fix: the extension context manager can be entered
 repeatedly

Entering an active context object again overwrote the list of extensions
to deactivate, so that they stayed active afterwards.
---
 mdp/extension.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/mdp/extension.py b/mdp/extension.py
index 3362698..0895b53 100644
--- a/mdp/extension.py
+++ b/mdp/extension.py
@@ -485,13 +485,14 @@ class extension(object):
         if isinstance(ext_names, __builtins__['str']):
             ext_names = [ext_names]
         self.ext_names = ext_names
+        # one list for each time the context was entered
         self.deactivate_exts = []
 
     def __enter__(self):
         already_active = get_active_extensions()
-        self.deactivate_exts = [ext_name for ext_name in self.ext_names
-                                if ext_name not in already_active]
         activate_extensions(self.ext_names)
+        self.deactivate_exts.append([ext_name for ext_name in self.ext_names
+                                     if ext_name not in already_active])
 
     def __exit__(self, type, value, traceback):
-        deactivate_extensions(self.deactivate_exts)
+        deactivate_extensions(self.deactivate_exts.pop())
-- 
2.43.0


From edd9a11052d1ae1c55dc36f01ab6174e8012d4c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:51 +0000
Subject: [PATCH 17/75] fix: the original of an extended attribute follows the
 class hierarchy (diamonds)

---
 mdp/extension.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mdp/extension.py b/mdp/extension.py
index 0895b53..76ec817 100644
--- a/mdp/extension.py
+++ b/mdp/extension.py
@@ -301,8 +301,8 @@ def _get_original_attribute(node_cls, attr_name):
     """Return a tuple that says if the class has the attribute when all
     extensions are ignored, and its value (as stored in the class dict)."""
     for cls in node_cls.__mro__:
-        if ORIGINAL_ATTR_PREFIX + attr_name in cls.__dict__:
-            return True, cls.__dict__[ORIGINAL_ATTR_PREFIX + attr_name]
+        if (cls, attr_name) in _shadowed_attributes:
+            return True, _shadowed_attributes[(cls, attr_name)]
         if (attr_name in cls.__dict__ and
             _EXTENSION_ATTR_PREFIX + attr_name not in cls.__dict__):
             return True, cls.__dict__[attr_name]
-- 
2.43.0


From 7feb967d5e9a8e3fe57f3195939d3f8df9e49e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:14 +0000
Subject: [PATCH 18/75] fix: set_instance_cache(False) also works for an
 instance that was added twice

---
 mdp/caching/caching_extension.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mdp/caching/caching_extension.py b/mdp/caching/caching_extension.py
index fcb24b8..42afa82 100644
--- a/mdp/caching/caching_extension.py
+++ b/mdp/caching/caching_extension.py
@@ -101,7 +101,7 @@ class CacheExecuteExtensionNode(ExtensionNode, Node):
         if active:
             _cached_instances.append(self)
         else:
-            if self in _cached_instances:
+            while self in _cached_instances:
                 _cached_instances.remove(self)
 
     def execute(self, x, *args, **kwargs):
-- 
2.43.0


From 30676998f33588202448c8be42db038c55f1d479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:14 +0000
Subject: [PATCH 19/75] fix: activate_caching does not keep the selection of an
 earlier activation

---
 mdp/caching/caching_extension.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/mdp/caching/caching_extension.py b/mdp/caching/caching_extension.py
index 42afa82..46d8cd2 100644
--- a/mdp/caching/caching_extension.py
+++ b/mdp/caching/caching_extension.py
@@ -154,11 +154,9 @@ def activate_caching(cachedir=None,
     set_cachedir(cachedir=cachedir, verbose=verbose)
     _cache_active_global = (cache_classes is None and cache_instances is None)
 
-    # active cache for specific classes and instances
-    if cache_classes is not None:
-        _cached_classes = list(cache_classes)
-    if cache_instances is not None:
-        _cached_instances = list(cache_instances)
+    # active cache only for the specified classes and instances
+    _cached_classes = list(cache_classes or [])
+    _cached_instances = list(cache_instances or [])
 
     activate_extension('cache_execute')
 
-- 
2.43.0


From 23ff35d56d79687b7cd18672b07a3635763190ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:14 +0000
Subject: [PATCH 20/75] fix: the cache_execute extension works without a
 previous activate_caching

---
 mdp/caching/caching_extension.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mdp/caching/caching_extension.py b/mdp/caching/caching_extension.py
index 46d8cd2..d113500 100644
--- a/mdp/caching/caching_extension.py
+++ b/mdp/caching/caching_extension.py
@@ -114,6 +114,9 @@ class CacheExecuteExtensionNode(ExtensionNode, Node):
 
         if self not in _cached_methods:
             global _memory
+            if _memory is None:
+                # the extension was activated without activate_caching
+                set_cachedir()
             _cached_methods[self] = _memory.cache(
                 self._non_extension_execute.__func__)
             # execute pre-execution checks once so that all automatic
-- 
2.43.0


From 384f0686636b59ee16d6acc332e82a5fbf347146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:14 +0000
Subject: [PATCH 21/75] fix: nodes that can not be pickled are executed without
 cache

---
 mdp/caching/caching_extension.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/mdp/caching/caching_extension.py b/mdp/caching/caching_extension.py
index d113500..01bf82f 100644
--- a/mdp/caching/caching_extension.py
+++ b/mdp/caching/caching_extension.py
@@ -117,12 +117,18 @@ class CacheExecuteExtensionNode(ExtensionNode, Node):
             if _memory is None:
                 # the extension was activated without activate_caching
                 set_cachedir()
-            _cached_methods[self] = _memory.cache(
-                self._non_extension_execute.__func__)
             # execute pre-execution checks once so that all automatic
             # settings of things like dtype and input_dim are done, and
             # caching begins from first execution, not the second
             self._pre_execution_checks(x)
+            executor = self._non_extension_execute.__func__
+            try:
+                # cached values are identified by the content of the node
+                joblib.hash(self)
+                _cached_methods[self] = _memory.cache(executor)
+            except Exception:
+                # the node can not be pickled, so it can not be cached
+                _cached_methods[self] = executor
 
         return _cached_methods[self](self, x, *args, **kwargs)
 
-- 
2.43.0


From bda53502d276a9287dd4e6f811eee15a1757fb5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:35 +0000
Subject: [PATCH 22/75] fix: Scheduler.add_task does not keep the lock when no
 callable is available

---
 mdp/parallel/scheduling.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mdp/parallel/scheduling.py b/mdp/parallel/scheduling.py
index db06de5..848b510 100644
--- a/mdp/parallel/scheduling.py
+++ b/mdp/parallel/scheduling.py
@@ -248,6 +248,7 @@ class Scheduler(object):
         self._lock.acquire()
         if task_callable is None:
             if self._last_callable is None:
+                self._lock.release()
                 raise Exception("No task_callable specified and " +
                                 "no previous callable available.")
         self._n_open_tasks += 1
-- 
2.43.0


From 60a61f341efe7b06834e3845bfffaa21d27202b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:35 +0000
Subject: [PATCH 23/75] fix: a task that raises does not leave the scheduler
 locked with an open task

---
 mdp/parallel/scheduling.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/mdp/parallel/scheduling.py b/mdp/parallel/scheduling.py
index 848b510..bed8bd1 100644
--- a/mdp/parallel/scheduling.py
+++ b/mdp/parallel/scheduling.py
@@ -352,8 +352,14 @@ class Scheduler(object):
         task_callable must not be called. Only a forked version can be called.
         """
         # IMPORTANT: always call fork, since it must be called at least once!
-        task_callable = task_callable.fork()
-        result = task_callable(data)
+        try:
+            task_callable = task_callable.fork()
+            result = task_callable(data)
+        except:
+            # the task is not open any more
+            self._n_open_tasks -= 1
+            self._lock.release()
+            raise
         # release lock before store_result
         self._lock.release()
         self._store_result(result, task_index)
-- 
2.43.0


From 98f935c971e76ce05e903d7ad9fb6faf861d67d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:35 +0000
Subject: [PATCH 24/75] fix: OrderedResultContainer returns an empty list when
 there are no results

---
 mdp/parallel/scheduling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mdp/parallel/scheduling.py b/mdp/parallel/scheduling.py
index bed8bd1..c8613d6 100644
--- a/mdp/parallel/scheduling.py
+++ b/mdp/parallel/scheduling.py
@@ -73,7 +73,7 @@ class OrderedResultContainer(ListResultContainer):
         results = self._results
         self._results = []
         results.sort(key=lambda x: x[1])
-        return list(zip(*results))[0]
+        return [result for result, _ in results]
 
 
 class TaskCallable(object):
-- 
2.43.0


From 987f1512bdd19b73fe9d14eb8b59099467a7dbe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:35 +0000
Subject: [PATCH 25/75] fix: Scheduler.get_results releases the lock when the
 result container raises

---
 mdp/parallel/scheduling.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/mdp/parallel/scheduling.py b/mdp/parallel/scheduling.py
index c8613d6..0bc5ec2 100644
--- a/mdp/parallel/scheduling.py
+++ b/mdp/parallel/scheduling.py
@@ -308,9 +308,10 @@ class Scheduler(object):
         while True:
             self._lock.acquire()
             if self._n_open_tasks == 0:
-                results = self.result_container.get_results()
-                self._lock.release()
-                return results
+                try:
+                    return self.result_container.get_results()
+                finally:
+                    self._lock.release()
             else:
                 self._lock.release()
                 time.sleep(1)
-- 
2.43.0


From 7c80322e07df4a3bbddcb589b9225dae796b2dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:35 +0000
Subject: [PATCH 26/75] fix: Scheduler.set_task_callable accepts functions like
 add_task

---
 mdp/parallel/scheduling.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mdp/parallel/scheduling.py b/mdp/parallel/scheduling.py
index 0bc5ec2..5c7a572 100644
--- a/mdp/parallel/scheduling.py
+++ b/mdp/parallel/scheduling.py
@@ -275,6 +275,9 @@ class Scheduler(object):
         task_callable -- Callable that will be used unless a new task_callable
             is given.
         """
+        if task_callable is not None and not hasattr(task_callable, "fork"):
+            # not a TaskCallable (probably a function), so wrap it
+            task_callable = TaskCallableWrapper(task_callable)
         self._lock.acquire()
         self._last_callable = task_callable
         # set _last_callable_index to half value since the callable is newer
-- 
2.43.0


From a92f5cb36faf2f8d3789adf3c3c8655f5bdeea05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:47 +0000
Subject: [PATCH 27/75] fix: a task that fails in a thread or process is
 reported by get_results instead of blocking it

---
 mdp/parallel/process_schedule.py | 34 ++++++++++++++++++----------
 mdp/parallel/scheduling.py       | 39 +++++++++++++++++++++++++-------
 mdp/parallel/thread_schedule.py  |  8 +++++--
 3 files changed, 59 insertions(+), 22 deletions(-)

diff --git a/mdp/parallel/process_schedule.py b/mdp/parallel/process_schedule.py
index cb99cd2..1a9fccf 100644
--- a/mdp/parallel/process_schedule.py
+++ b/mdp/parallel/process_schedule.py
@@ -106,20 +106,25 @@ class ProcessScheduler(Scheduler):
         if source_paths is None:
             source_paths = sys.path
         process_args += source_paths
+        self._process_args = process_args
         # list of processes not in use, start the processes now
-        self._free_processes = [subprocess.Popen(args=process_args,
-                                                 stdout=subprocess.PIPE,
-                                                 stdin=subprocess.PIPE)
+        self._free_processes = [self._start_process()
                                 for _ in range(self._n_processes)]
-        # tag each process with its cached callable task_index,
-        # this is compared with _last_callable_index to check if the cached
-        # task_callable is still up to date
-        for process in self._free_processes:
-            process._callable_index = -1
         if self.verbose:
             print ("scheduler initialized with %d processes" %
                    self._n_processes)
 
+    def _start_process(self):
+        """Start and return a slave process."""
+        process = subprocess.Popen(args=self._process_args,
+                                   stdout=subprocess.PIPE,
+                                   stdin=subprocess.PIPE)
+        # tag each process with its cached callable task_index,
+        # this is compared with _last_callable_index to check if the cached
+        # task_callable is still up to date
+        process._callable_index = -1
+        return process
+
     def _shutdown(self):
         """Shut down the slave processes.
 
@@ -185,11 +190,16 @@ class ProcessScheduler(Scheduler):
             result = pickle.load(process.stdout)
         except:
             traceback.print_exc()
-            self._free_processes.append(process)
-            sys.exit("failed to execute task %d in process:" % task_index)
-        # store the result and clean up
-        self._store_result(result, task_index)
+            # the state of the process is unknown, so replace it
+            process.kill()
+            process.wait()
+            self._free_processes.append(self._start_process())
+            self._store_exception(Exception(
+                    "failed to execute task %d in process" % task_index))
+            return
+        # clean up and store the result
         self._free_processes.append(process)
+        self._store_result(result, task_index)
 
 
 def _process_run(cache_callable=True):
diff --git a/mdp/parallel/scheduling.py b/mdp/parallel/scheduling.py
index 5c7a572..26936a3 100644
--- a/mdp/parallel/scheduling.py
+++ b/mdp/parallel/scheduling.py
@@ -217,6 +217,8 @@ class Scheduler(object):
         self._last_callable = None  # last callable is stored
         # task index of the _last_callable, can be *.5 if updated between tasks
         self._last_callable_index = -1.0
+        # exceptions of tasks that failed outside of add_task
+        self._task_exceptions = []
 
     ## public read only properties ##
 
@@ -294,25 +296,46 @@ class Scheduler(object):
         This function blocks to avoid any problems during result storage.
         """
         self._lock.acquire()
-        self.result_container.add_result(result, task_index)
-        if self.verbose:
-            if task_index is not None:
-                print("    finished task no. %d" % task_index)
-            else:
-                print("    task failed")
+        try:
+            self.result_container.add_result(result, task_index)
+            if self.verbose:
+                if task_index is not None:
+                    print("    finished task no. %d" % task_index)
+                else:
+                    print("    task failed")
+        except Exception as exception:
+            self._task_exceptions.append(exception)
+        finally:
+            self._n_open_tasks -= 1
+            self._lock.release()
+
+    def _store_exception(self, exception):
+        """Store the exception of a failed task, it is raised by get_results.
+
+        This must be called instead of _store_result if the task failed and
+        was not executed in add_task.
+        """
+        self._lock.acquire()
+        self._task_exceptions.append(exception)
         self._n_open_tasks -= 1
         self._lock.release()
 
     def get_results(self):
         """Get the accumulated results from the result container.
 
-        This method blocks if there are open tasks.
+        This method blocks if there are open tasks. If a task failed then the
+        exception is raised (and the results of the other tasks are dropped).
         """
         while True:
             self._lock.acquire()
             if self._n_open_tasks == 0:
                 try:
-                    return self.result_container.get_results()
+                    results = self.result_container.get_results()
+                    if self._task_exceptions:
+                        exception = self._task_exceptions[0]
+                        self._task_exceptions = []
+                        raise exception
+                    return results
                 finally:
                     self._lock.release()
             else:
diff --git a/mdp/parallel/thread_schedule.py b/mdp/parallel/thread_schedule.py
index 09a4d11..19a357d 100644
--- a/mdp/parallel/thread_schedule.py
+++ b/mdp/parallel/thread_schedule.py
@@ -82,6 +82,10 @@ class ThreadScheduler(Scheduler):
 
     def _task_thread(self, data, task_callable, task_index):
         """Thread function which processes a single task."""
-        result = task_callable(data)
-        self._store_result(result, task_index)
+        try:
+            result = task_callable(data)
+        except BaseException as exception:
+            self._store_exception(exception)
+        else:
+            self._store_result(result, task_index)
         self._n_active_threads -= 1
-- 
2.43.0


From d3974a0ff34418646c1ed5ed1e00f0d1e0acfd2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:47 +0000
Subject: [PATCH 28/75] fix: ProcessScheduler.shutdown releases the lock when
 it raises

---
 mdp/parallel/process_schedule.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/mdp/parallel/process_schedule.py b/mdp/parallel/process_schedule.py
index 1a9fccf..b464cdf 100644
--- a/mdp/parallel/process_schedule.py
+++ b/mdp/parallel/process_schedule.py
@@ -131,12 +131,14 @@ class ProcessScheduler(Scheduler):
         If a process is still running a task then an exception is raised.
         """
         self._lock.acquire()
-        if len(self._free_processes) < self._n_processes:
-            raise Exception("some slave process is still working")
-        for process in self._free_processes:
-            pickle.dump("EXIT", process.stdin)
-            process.stdin.flush()
-        self._lock.release()
+        try:
+            if len(self._free_processes) < self._n_processes:
+                raise Exception("some slave process is still working")
+            for process in self._free_processes:
+                pickle.dump("EXIT", process.stdin)
+                process.stdin.flush()
+        finally:
+            self._lock.release()
         if self.verbose:
             print("scheduler shutdown")
 
-- 
2.43.0


From 0c6dcd52a9e7290958af7c64ab0438a15beb6254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:47 +0000
Subject: [PATCH 29/75] fix: ProcessScheduler always executes a task with its
 own callable, and retries to start threads

---
 mdp/parallel/process_schedule.py | 48 +++++++++++++++++---------------
 1 file changed, 25 insertions(+), 23 deletions(-)

diff --git a/mdp/parallel/process_schedule.py b/mdp/parallel/process_schedule.py
index b464cdf..3e7d7a8 100644
--- a/mdp/parallel/process_schedule.py
+++ b/mdp/parallel/process_schedule.py
@@ -148,29 +148,31 @@ class ProcessScheduler(Scheduler):
         It blocks when the system is not able to start a new thread
         or when the processes are all in use.
         """
+        # the last callable can be replaced while this task is waiting
+        callable_index = self._last_callable_index
+        while not len(self._free_processes):
+            # release lock for other threads and wait
+            self._lock.release()
+            time.sleep(SLEEP_TIME)
+            self._lock.acquire()
+        process = self._free_processes.pop()
+        self._lock.release()
         task_started = False
         while not task_started:
-            if not len(self._free_processes):
-                # release lock for other threads and wait
-                self._lock.release()
-                time.sleep(SLEEP_TIME)
-                self._lock.acquire()
-            else:
-                try:
-                    process = self._free_processes.pop()
-                    self._lock.release()
-                    thread = threading.Thread(target=self._task_thread,
-                                              args=(process, data,
-                                                    task_callable, task_index))
-                    thread.start()
-                    task_started = True
-                except thread.error:
-                    if self.verbose:
-                        print ("unable to create new task thread,"
-                               " waiting 2 seconds...")
-                    time.sleep(2)
+            try:
+                thread = threading.Thread(target=self._task_thread,
+                                          args=(process, data, task_callable,
+                                                task_index, callable_index))
+                thread.start()
+                task_started = True
+            except Exception:
+                if self.verbose:
+                    print ("unable to create new task thread,"
+                           " waiting 2 seconds...")
+                time.sleep(2)
 
-    def _task_thread(self, process, data, task_callable, task_index):
+    def _task_thread(self, process, data, task_callable, task_index,
+                     callable_index):
         """Thread function which cares for a single task.
 
         The task is pushed to the process via stdin, then we wait for the
@@ -179,9 +181,9 @@ class ProcessScheduler(Scheduler):
         """
         try:
             if self._cache_callable:
-                # check if the cached callable is up to date
-                if process._callable_index < self._last_callable_index:
-                    process._callable_index = self._last_callable_index
+                # check if the process has cached the callable of this task
+                if process._callable_index != callable_index:
+                    process._callable_index = callable_index
                 else:
                     task_callable = None
             # push the task to the process
-- 
2.43.0


From a222fc117c5ea2cd19deb38ddaa00c1d7468c956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:47 +0000
Subject: [PATCH 30/75] fix: ProcessScheduler forks the callable also without
 caching

---
 mdp/parallel/process_schedule.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mdp/parallel/process_schedule.py b/mdp/parallel/process_schedule.py
index 3e7d7a8..d6841de 100644
--- a/mdp/parallel/process_schedule.py
+++ b/mdp/parallel/process_schedule.py
@@ -247,6 +247,7 @@ def _process_run(cache_callable=True):
                     task_callable = task_callable.fork()
                 else:
                     task_callable.setup_environment()
+                    task_callable = task_callable.fork()
                 result = task_callable(data)
                 del task_callable  # free memory
                 pickle.dump(result, pickle_out, protocol=-1)
-- 
2.43.0


From 966642fbf09cce2344cb36a49913cec1daebcbc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:47 +0000
Subject: [PATCH 31/75] fix: ThreadScheduler keeps its lock and number of
 threads consistent, also when a callable can not be copied or a thread not
 started

---
 mdp/parallel/thread_schedule.py | 58 +++++++++++++++++++--------------
 1 file changed, 33 insertions(+), 25 deletions(-)

diff --git a/mdp/parallel/thread_schedule.py b/mdp/parallel/thread_schedule.py
index 19a357d..f430888 100644
--- a/mdp/parallel/thread_schedule.py
+++ b/mdp/parallel/thread_schedule.py
@@ -52,33 +52,39 @@ class ThreadScheduler(Scheduler):
         It blocks when the maximum number of threads is reached (given by
         n_threads) or when the system is not able to start a new thread.
         """
+        try:
+            task_callable = task_callable.fork()
+            if self.copy_callable:
+                # create a deep copy of the task_callable,
+                # since it might not be thread safe
+                # (but the fork is still required)
+                as_str = pickle.dumps(task_callable, -1)
+                task_callable = pickle.loads(as_str)
+        except:
+            # the task is not open any more
+            self._n_open_tasks -= 1
+            self._lock.release()
+            raise
+        while self._n_active_threads >= self._n_threads:
+            # release lock for other threads and wait
+            self._lock.release()
+            time.sleep(SLEEP_TIME)
+            self._lock.acquire()
+        self._n_active_threads += 1
+        self._lock.release()
         task_started = False
         while not task_started:
-            if self._n_active_threads >= self._n_threads:
-                # release lock for other threads and wait
-                self._lock.release()
-                time.sleep(SLEEP_TIME)
-                self._lock.acquire()
-            else:
-                self._lock.release()
-                task_callable = task_callable.fork()
-                if self.copy_callable:
-                    # create a deep copy of the task_callable,
-                    # since it might not be thread safe 
-                    # (but the fork is still required)
-                    as_str = pickle.dumps(task_callable, -1)
-                    task_callable = pickle.loads(as_str)
-                try:
-                    thread = threading.Thread(target=self._task_thread,
-                                              args=(data, task_callable,
-                                                    task_index))
-                    thread.start()
-                    task_started = True
-                except Exception:
-                    if self.verbose:
-                        print ("unable to create new thread,"
-                               " waiting 2 seconds...")
-                    time.sleep(2)
+            try:
+                thread = threading.Thread(target=self._task_thread,
+                                          args=(data, task_callable,
+                                                task_index))
+                thread.start()
+                task_started = True
+            except Exception:
+                if self.verbose:
+                    print ("unable to create new thread,"
+                           " waiting 2 seconds...")
+                time.sleep(2)
 
     def _task_thread(self, data, task_callable, task_index):
         """Thread function which processes a single task."""
@@ -88,4 +94,6 @@ class ThreadScheduler(Scheduler):
             self._store_exception(exception)
         else:
             self._store_result(result, task_index)
+        self._lock.acquire()
         self._n_active_threads -= 1
+        self._lock.release()
-- 
2.43.0


From 94742da4c37f5fdac8b897dfd66d0ad4bb5587c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:56 +0000
Subject: [PATCH 32/75] fix: NIPALSNode does not lose its data in parallel
 training

---
 mdp/parallel/parallelnodes.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/mdp/parallel/parallelnodes.py b/mdp/parallel/parallelnodes.py
index b0ca7cc..5bc0c15 100644
--- a/mdp/parallel/parallelnodes.py
+++ b/mdp/parallel/parallelnodes.py
@@ -191,6 +191,22 @@ class ParallelPCANode(ParallelExtensionNode, mdp.nodes.PCANode):
             self._join_covariance(self._cov_mtx, forked_node._cov_mtx)
 
 
+class ParallelNIPALSNode(ParallelExtensionNode, mdp.nodes.NIPALSNode):
+    """Parallel version of MDP NIPALS node.
+
+    NIPALSNode is derived from PCANode, but collects its data instead of
+    using a covariance matrix.
+    """
+
+    def _fork(self):
+        return self._default_fork()
+
+    def _join(self, forked_node):
+        """Combine the collected data."""
+        self.data = self.data + forked_node.data
+        self.tlen += forked_node.tlen
+
+
 class ParallelSFANode(ParallelExtensionNode, mdp.nodes.SFANode):
     """Parallel version of MDP SFA node."""
 
-- 
2.43.0


From 2312e58b925a5a140eef24bb34957a5e42c5e441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:56 +0000
Subject: [PATCH 33/75] fix: VartimeSFANode is trained locally in a parallel
 flow

---
 mdp/parallel/parallelnodes.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/mdp/parallel/parallelnodes.py b/mdp/parallel/parallelnodes.py
index 5bc0c15..f08e2a5 100644
--- a/mdp/parallel/parallelnodes.py
+++ b/mdp/parallel/parallelnodes.py
@@ -224,6 +224,20 @@ class ParallelSFANode(ParallelExtensionNode, mdp.nodes.SFANode):
             self._join_covariance(self._dcov_mtx, forked_node._dcov_mtx)
 
 
+class ParallelVartimeSFANode(ParallelExtensionNode,
+                             mdp.nodes.VartimeSFANode):
+    """VartimeSFANode connects subsequent chunks, so it is trained locally."""
+
+    def _fork(self):
+        err = ("VartimeSFANode depends on the order of its data chunks, so it "
+               "can not be trained in parallel.")
+        raise NotForkableParallelException(err)
+
+    def _join(self, forked_node):
+        err = "VartimeSFANode can not be joined."
+        raise JoinParallelException(err)
+
+
 class ParallelFDANode(ParallelExtensionNode, mdp.nodes.FDANode):
 
     def _fork(self):
-- 
2.43.0


From 8156aea00a0f11b3d65d3338518a15e27713d96b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:56 +0000
Subject: [PATCH 34/75] fix: ParallelLayer forks and joins the nodes that need
 it for execution

---
 mdp/parallel/parallelhinet.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mdp/parallel/parallelhinet.py b/mdp/parallel/parallelhinet.py
index ac95fde..579272e 100644
--- a/mdp/parallel/parallelhinet.py
+++ b/mdp/parallel/parallelhinet.py
@@ -51,7 +51,7 @@ class ParallelLayer(hinet.Layer, parallelnodes.ParallelExtensionNode):
         """Fork or copy all the nodes in the layer to fork the layer."""
         forked_nodes = []
         for node in self.nodes:
-            if node.is_training():
+            if node.is_training() or node.use_execute_fork():
                 forked_nodes.append(node.fork())
             else:
                 forked_nodes.append(node)
@@ -60,7 +60,7 @@ class ParallelLayer(hinet.Layer, parallelnodes.ParallelExtensionNode):
     def _join(self, forked_node):
         """Join the trained nodes from the forked layer."""
         for i_node, layer_node in enumerate(self.nodes):
-            if layer_node.is_training():
+            if layer_node.is_training() or layer_node.use_execute_fork():
                 layer_node.join(forked_node.nodes[i_node])
     
     def use_execute_fork(self):
-- 
2.43.0


From 61fc555242f26f804e16838c9ce56e4c28790b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:56 +0000
Subject: [PATCH 35/75] fix: ExecuteResultContainer does not return the node of
 an earlier execution again

---
 mdp/parallel/parallelflows.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mdp/parallel/parallelflows.py b/mdp/parallel/parallelflows.py
index 9eb2e44..631808f 100644
--- a/mdp/parallel/parallelflows.py
+++ b/mdp/parallel/parallelflows.py
@@ -207,6 +207,7 @@ class ExecuteResultContainer(OrderedResultContainer):
         excecute_results = super(ExecuteResultContainer, self).get_results()
         flownode_results = ([self._flownode,]
                               + ([None] * (len(excecute_results)-1)))
+        self._flownode = None
         return list(zip(excecute_results, flownode_results))
 
 ### ParallelFlow Class ###
-- 
2.43.0


From 487a2ec6f79f7c46a8ae28242fb66ac85bd1f73d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:56 +0000
Subject: [PATCH 36/75] fix: ParallelFlow.train accepts one scheduler per node
 when all nodes are trained

---
 mdp/parallel/parallelflows.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mdp/parallel/parallelflows.py b/mdp/parallel/parallelflows.py
index 631808f..9b35db7 100644
--- a/mdp/parallel/parallelflows.py
+++ b/mdp/parallel/parallelflows.py
@@ -325,7 +325,8 @@ class ParallelFlow(mdp.Flow):
                     # self._i_train_node was set in setup_parallel_training
                     schedulers = iter(scheduler)
                     scheduler = next(schedulers)
-                    if self._i_train_node > 0:
+                    if (self._i_train_node is not None and
+                        self._i_train_node > 0):
                         # dispose schedulers for pretrained nodes
                         for _ in range(self._i_train_node):
                             if scheduler is not None:
-- 
2.43.0


From 6eb62980810e1fe219582284e009f6e204a1dc08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:09 +0000
Subject: [PATCH 37/75] fix: FlowTrainCallable trains with the same arguments
 as Flow.train for other array types

---
 mdp/parallel/parallelflows.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mdp/parallel/parallelflows.py b/mdp/parallel/parallelflows.py
index 9b35db7..968eb19 100644
--- a/mdp/parallel/parallelflows.py
+++ b/mdp/parallel/parallelflows.py
@@ -90,10 +90,10 @@ class FlowTrainCallable(FlowTaskCallable):
         data -- training data block (array or list if additional arguments are
             required)
         """
-        if type(data) is n.ndarray:
-            self._flownode.train(data)
-        else:
+        if (type(data) is tuple) or (type(data) is list):
             self._flownode.train(*data)
+        else:
+            self._flownode.train(data)
         # note the local training in ParallelFlow relies on the flownode
         # being preserved, so derived classes should preserve it as well
         if self._purge_nodes:
-- 
2.43.0


From 87c10d10be115fb9a88a0b638e53462059f07e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:09 +0000
Subject: [PATCH 38/75] fix: ParallelCheckpointFlow can be trained without a
 scheduler

---
 mdp/parallel/parallelflows.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mdp/parallel/parallelflows.py b/mdp/parallel/parallelflows.py
index 968eb19..767ccb6 100644
--- a/mdp/parallel/parallelflows.py
+++ b/mdp/parallel/parallelflows.py
@@ -727,7 +727,7 @@ class ParallelCheckpointFlow(ParallelFlow, mdp.CheckpointFlow):
                                                      **kwargs)
 
     def train(self, data_iterables, checkpoints, scheduler=None,
-              train_callable_class=FlowTrainCallable,
+              train_callable_class=None,
               overwrite_result_container=True,
               **kwargs):
         """Train all trainable nodes in the flow.
-- 
2.43.0


From d5963f0cf549992873d5caf683c7fba167c07fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:09 +0000
Subject: [PATCH 39/75] fix: setup_parallel_execution creates the flow node
 used by the tasks

---
 mdp/parallel/parallelflows.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mdp/parallel/parallelflows.py b/mdp/parallel/parallelflows.py
index 767ccb6..0117f4c 100644
--- a/mdp/parallel/parallelflows.py
+++ b/mdp/parallel/parallelflows.py
@@ -572,7 +572,6 @@ class ParallelFlow(mdp.Flow):
                               ExecuteResultContainer):
                 scheduler.result_container = ExecuteResultContainer()
         # do parallel execution
-        self._flownode = FlowNode(mdp.Flow(self.flow))
         try:
             self.setup_parallel_execution(
                                 iterable,
@@ -613,9 +612,11 @@ class ParallelFlow(mdp.Flow):
         self._execute_callable_class = execute_callable_class
         if isinstance(iterable, n.ndarray):
             iterable = [iterable]
+        self._flownode = FlowNode(mdp.Flow(self.flow))
         self._exec_data_iterator = iter(iterable)
         first_task = self._create_execute_task()
         if first_task is None:
+            self._exec_data_iterator = None
             errstr = ("The execute data iterator is empty.")
             raise mdp.FlowException(errstr)
         task_data_chunk = first_task[0]
-- 
2.43.0


From fdf51fb94fd444e2885e95c106c7ccb020cf8d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:37 +0000
Subject: [PATCH 40/75] fix: ParallelFlow.use_results raises an exception if no
 results are expected or tasks are left

---
 mdp/parallel/parallelflows.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mdp/parallel/parallelflows.py b/mdp/parallel/parallelflows.py
index 0117f4c..17dc9d0 100644
--- a/mdp/parallel/parallelflows.py
+++ b/mdp/parallel/parallelflows.py
@@ -688,6 +688,9 @@ class ParallelFlow(mdp.Flow):
             of scheduler.ResultContainer.get_results().
             The individual results can be the return values of the tasks.
         """
+        if self.task_available:
+            err = "There are still tasks available, so results are missing."
+            raise ParallelFlowException(err)
         if self.is_parallel_training:
             for result in results:
                 # the flownode contains the original nodes
@@ -710,6 +713,9 @@ class ParallelFlow(mdp.Flow):
                     if flownode is not None:
                         self._flownode.join(flownode)
             return n.concatenate(ys)
+        else:
+            err = "It seems that there are no results to retrieve."
+            raise ParallelFlowException(err)
 
 
 class ParallelCheckpointFlow(ParallelFlow, mdp.CheckpointFlow):
-- 
2.43.0


From 8f1432470ffef57588e29ae3a1c1200da9c7fcaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:37 +0000
Subject: [PATCH 41/75] fix: ParallelFlow does not start a training or
 execution during a parallel execution

---
 mdp/parallel/parallelflows.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/mdp/parallel/parallelflows.py b/mdp/parallel/parallelflows.py
index 17dc9d0..94a13f9 100644
--- a/mdp/parallel/parallelflows.py
+++ b/mdp/parallel/parallelflows.py
@@ -303,6 +303,8 @@ class ParallelFlow(mdp.Flow):
         #          in ParallelCheckpointFlow.
         if self.is_parallel_training:
             raise ParallelFlowException("Parallel training is underway.")
+        if self.is_parallel_executing:
+            raise ParallelFlowException("Parallel execution is underway.")
         if scheduler is None:
             if train_callable_class is not None:
                 err = ("A train_callable_class was specified but no scheduler "
@@ -407,6 +409,8 @@ class ParallelFlow(mdp.Flow):
         if self.is_parallel_training:
             err = "Parallel training is already underway."
             raise ParallelFlowException(err)
+        if self.is_parallel_executing:
+            raise ParallelFlowException("Parallel execution is underway.")
         self._train_callable_class = train_callable_class
         self._train_data_iterables = self._train_check_iterables(data_iterables)
         self._i_train_node = 0
@@ -557,6 +561,8 @@ class ParallelFlow(mdp.Flow):
         """
         if self.is_parallel_training:
             raise ParallelFlowException("Parallel training is underway.")
+        if self.is_parallel_executing:
+            raise ParallelFlowException("Parallel execution is underway.")
         if scheduler is None:
             if execute_callable_class is not None:
                 err = ("A execute_callable_class was specified but no "
@@ -609,6 +615,8 @@ class ParallelFlow(mdp.Flow):
         """
         if self.is_parallel_training:
             raise ParallelFlowException("Parallel training is underway.")
+        if self.is_parallel_executing:
+            raise ParallelFlowException("Parallel execution is underway.")
         self._execute_callable_class = execute_callable_class
         if isinstance(iterable, n.ndarray):
             iterable = [iterable]
-- 
2.43.0


From 1ebee5539a3a654e8ef176d6a7aa2dbb3dc2b448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:37 +0000
Subject: [PATCH 42/75] fix: ParallelFlow is not left in a parallel training or
 execution that failed

---
 mdp/parallel/parallelflows.py | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/mdp/parallel/parallelflows.py b/mdp/parallel/parallelflows.py
index 94a13f9..0fb18b0 100644
--- a/mdp/parallel/parallelflows.py
+++ b/mdp/parallel/parallelflows.py
@@ -212,6 +212,18 @@ class ExecuteResultContainer(OrderedResultContainer):
 
 ### ParallelFlow Class ###
 
+def _drop_results(scheduler):
+    """Wait for the tasks that are still open and drop all results.
+
+    This is used after an error, so that the results do not end up in the next
+    training or execution with the same scheduler.
+    """
+    try:
+        scheduler.get_results()
+    except Exception:
+        pass
+
+
 class ParallelFlowException(mdp.FlowException):
     """Standard exception for problems with ParallelFlow."""
     pass
@@ -378,10 +390,18 @@ class ParallelFlow(mdp.Flow):
                             (not isinstance(scheduler.result_container,
                                             TrainResultContainer))):
                             scheduler.result_container = TrainResultContainer()
+            except Exception:
+                # drop the results of this training
+                if isinstance(scheduler, Scheduler):
+                    _drop_results(scheduler)
+                raise
             finally:
                 # reset iterable references, which cannot be pickled
                 self._train_data_iterables = None
                 self._train_data_iterator = None
+                # the training is not underway any more, even if it failed
+                self._i_train_node = None
+                self._next_task = None
                 if (schedulers is not None) and (scheduler is not None):
                     scheduler.shutdown()
 
@@ -587,9 +607,14 @@ class ParallelFlow(mdp.Flow):
                 task = self.get_task()
                 scheduler.add_task(*task)
             result = self.use_results(scheduler.get_results())
+        except Exception:
+            # drop the results of this execution
+            _drop_results(scheduler)
+            raise
         finally:
             # reset remaining iterator references, which cannot be pickled
             self._exec_data_iterator = None
+            self._next_task = None
         return result
 
     def setup_parallel_execution(self, iterable, nodenr=None,
-- 
2.43.0


From 5ef93d84df87b3d1cfb3e0b02c60812c476aeffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:10 +0000
Subject: [PATCH 43/75] fix: parallel execution stops at the given nodenr

---
 mdp/parallel/parallelflows.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mdp/parallel/parallelflows.py b/mdp/parallel/parallelflows.py
index 0fb18b0..5a2ce8b 100644
--- a/mdp/parallel/parallelflows.py
+++ b/mdp/parallel/parallelflows.py
@@ -645,7 +645,11 @@ class ParallelFlow(mdp.Flow):
         self._execute_callable_class = execute_callable_class
         if isinstance(iterable, n.ndarray):
             iterable = [iterable]
-        self._flownode = FlowNode(mdp.Flow(self.flow))
+        flow = self.flow
+        if nodenr is not None and nodenr >= 0:
+            # only use the nodes that are executed
+            flow = flow[:nodenr+1]
+        self._flownode = FlowNode(mdp.Flow(flow))
         self._exec_data_iterator = iter(iterable)
         first_task = self._create_execute_task()
         if first_task is None:
@@ -658,6 +662,7 @@ class ParallelFlow(mdp.Flow):
         # forked in the scheduler.
         self._next_task = (task_data_chunk,
                            self._execute_callable_class(self._flownode,
+                                                        nodenr=nodenr,
                                                         purge_nodes=True))
 
     def _create_execute_task(self):
-- 
2.43.0


From e39c9fde4b4dcea1ccd523f8a398cd09cec95565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:24 +0000
Subject: [PATCH 44/75] fix: parallel execution closes open training phases
 before the nodes are forked

---
 mdp/parallel/parallelflows.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/mdp/parallel/parallelflows.py b/mdp/parallel/parallelflows.py
index 5a2ce8b..9eb514f 100644
--- a/mdp/parallel/parallelflows.py
+++ b/mdp/parallel/parallelflows.py
@@ -649,14 +649,23 @@ class ParallelFlow(mdp.Flow):
         if nodenr is not None and nodenr >= 0:
             # only use the nodes that are executed
             flow = flow[:nodenr+1]
-        self._flownode = FlowNode(mdp.Flow(flow))
-        self._exec_data_iterator = iter(iterable)
-        first_task = self._create_execute_task()
-        if first_task is None:
-            self._exec_data_iterator = None
+        data_iterator = iter(iterable)
+        try:
+            task_data_chunk = next(data_iterator)
+        except StopIteration:
             errstr = ("The execute data iterator is empty.")
             raise mdp.FlowException(errstr)
-        task_data_chunk = first_task[0]
+        # like in a normal execution training phases are closed first, a fork
+        # would not contain the results of the training
+        for i_node, node in enumerate(flow):
+            if node.is_training():
+                if (node._train_phase_started or
+                    node.get_current_train_phase() > 0):
+                    node._if_training_stop_training()
+                else:
+                    mdp.Flow(flow[:i_node+1]).execute(task_data_chunk)
+        self._flownode = FlowNode(mdp.Flow(flow))
+        self._exec_data_iterator = data_iterator
         # Only first task contains the new callable (enable caching).
         # A fork is not required here, since the callable is always
         # forked in the scheduler.
-- 
2.43.0


From 7611c70a2d814d9cfd76610051516d21ba8d719d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:11 +0000
Subject: [PATCH 45/75] fix: parallel execution of nodes whose dimensions are
 not set yet

---
 mdp/parallel/parallelflows.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mdp/parallel/parallelflows.py b/mdp/parallel/parallelflows.py
index 9eb514f..176d2a3 100644
--- a/mdp/parallel/parallelflows.py
+++ b/mdp/parallel/parallelflows.py
@@ -159,7 +159,9 @@ class FlowExecuteCallable(FlowTaskCallable):
         If use_fork_execute is True for the flownode then it is returned
         in the result tuple.
         """
-        y = self._flownode.execute(x, nodenr=self._nodenr)
+        # use the internal flow, since the flownode is not able to set
+        # dimensions of its nodes which are only known after the execution
+        y = self._flownode._flow.execute(x, nodenr=self._nodenr)
         if self._flownode.use_execute_fork():
             if self._purge_nodes:
                 _purge_flownode(self._flownode)
-- 
2.43.0


From 4232555cc2fcc5b14e33df4958e0016e283a3e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:40 +0000
Subject: [PATCH 46/75] fix: parallel nodes can not be joined with a fork
 trained on another input dimension

---
 mdp/parallel/parallelnodes.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mdp/parallel/parallelnodes.py b/mdp/parallel/parallelnodes.py
index f08e2a5..8ab8d37 100644
--- a/mdp/parallel/parallelnodes.py
+++ b/mdp/parallel/parallelnodes.py
@@ -75,6 +75,10 @@ class ParallelExtensionNode(mdp.ExtensionNode, mdp.Node):
             self.dtype = forked_node.dtype
         if self.input_dim is None:
             self.input_dim = forked_node.input_dim
+        elif forked_node.input_dim not in (None, self.input_dim):
+            err = ("The forked node was trained with input dimension %d "
+                   "instead of %d." % (forked_node.input_dim, self.input_dim))
+            raise JoinParallelException(err)
         if self.output_dim is None:
             self.output_dim = forked_node.output_dim
         if forked_node._train_phase_started and not self._train_phase_started:
-- 
2.43.0


From f104bc46cbf43ddb9ca10a627fc8ea338081c99e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:58 +0000
Subject: [PATCH 47/75] fix: the dummy node in purged flow nodes has the
 dimensions of the node and is not shared

---
 mdp/parallel/parallelflows.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/mdp/parallel/parallelflows.py b/mdp/parallel/parallelflows.py
index 176d2a3..30c7c36 100644
--- a/mdp/parallel/parallelflows.py
+++ b/mdp/parallel/parallelflows.py
@@ -34,13 +34,15 @@ class _DummyNode(mdp.Node):
         raise mdp.NodeException(err)
 
 
-_DUMMY_NODE = _DummyNode()
-
 def _purge_flownode(flownode):
     """Replace nodes that are """
     for i_node, node in enumerate(flownode._flow):
         if not (node._train_phase_started or node.use_execute_fork()):
-            flownode._flow.flow[i_node] = _DUMMY_NODE
+            # use a new instance with the dimensions of the node, since the
+            # dimensions are needed (and set) when the flownode is joined
+            flownode._flow.flow[i_node] = _DummyNode(
+                                                input_dim=node.input_dim,
+                                                output_dim=node.output_dim)
 
 
 ### Train task classes ###
-- 
2.43.0


From d75be92f02a771892c54731c7f5452ea0a4eddce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:37 +0000
Subject: [PATCH 48/75] fix: BiNode.train drops the message of a result without
 data also if no message was given

---
 bimdp/binode.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/bimdp/binode.py b/bimdp/binode.py
index e2fa7ac..39f6bf2 100644
--- a/bimdp/binode.py
+++ b/bimdp/binode.py
@@ -197,7 +197,12 @@ class BiNode(mdp.Node):
                 raise BiNodeException(err)
             self._train_phase_started = True
             x = self._refcast(x)
-            return self._train_seq[self._train_phase][0](x)
+            result = self._train_seq[self._train_phase][0](x)
+            if (isinstance(result, tuple) and len(result) == 2 and
+                    result[0] is None):
+                # drop the msg, like below
+                return None
+            return result
         msg_id_keys = self._get_msg_id_keys(msg)
         target = self._extract_message_key("target", msg, msg_id_keys)
         method_name = self._extract_message_key("method", msg, msg_id_keys)
-- 
2.43.0


From 486a678eb508a18d4a89d9f298c8da32e5ec975e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:37 +0000
Subject: [PATCH 49/75] fix: the inverse method selected by a message gets its
 data in the dtype of the node

---
 bimdp/binode.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bimdp/binode.py b/bimdp/binode.py
index 39f6bf2..084c6f3 100644
--- a/bimdp/binode.py
+++ b/bimdp/binode.py
@@ -159,6 +159,7 @@ class BiNode(mdp.Node):
             # resolution to internal nodes by manipulating _get_method
             elif method == self._inverse:
                 self._pre_inversion_checks(x)
+                x = self._refcast(x)
         result = method(x, **arg_dict)
         return self._combine_result(result, msg, target)
 
@@ -224,6 +225,7 @@ class BiNode(mdp.Node):
                 x = self._refcast(x)
             elif method == self._inverse:
                 self._pre_inversion_checks(x)
+                x = self._refcast(x)
         result = method(x, **arg_dict)
         if result is None:
             return None
-- 
2.43.0


From bd093e4c9bb2ce798d1d8596fe7f5405de8cb215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:37 +0000
Subject: [PATCH 50/75] fix: a BiNodeException is raised if the method selected
 by a message is no method

---
 bimdp/binode.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/bimdp/binode.py b/bimdp/binode.py
index 084c6f3..70c724a 100644
--- a/bimdp/binode.py
+++ b/bimdp/binode.py
@@ -408,9 +408,8 @@ class BiNode(mdp.Node):
                 target = -1
         else:
             method_name = "_" + method_name
-            try:
-                method = getattr(self, method_name)
-            except AttributeError:
+            method = getattr(self, method_name, None)
+            if not callable(method):
                 err = ("The message requested a method named '%s', but "
                        "there is no such method." % method_name)
                 raise BiNodeException(err)
-- 
2.43.0


From edddfc5808e83fbb6811a5a02665e29e1059fd7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:37 +0000
Subject: [PATCH 51/75] fix: message keys with more than one separator are
 accepted

---
 bimdp/binode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bimdp/binode.py b/bimdp/binode.py
index 70c724a..0867540 100644
--- a/bimdp/binode.py
+++ b/bimdp/binode.py
@@ -349,7 +349,7 @@ class BiNode(mdp.Node):
         msg_id_keys = []
         for fullkey in msg:
             if fullkey.find(MSG_ID_SEP) > 0:
-                node_id, key = fullkey.split(MSG_ID_SEP)
+                node_id, key = fullkey.split(MSG_ID_SEP, 1)
                 if node_id == self._node_id:
                     msg_id_keys.append((key, fullkey))
         return msg_id_keys
-- 
2.43.0


From 1e16dc5baaacd7a4e96a1556988331f53ff0b89f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:37 +0000
Subject: [PATCH 52/75] fix: the value returned by a BiNode coroutine is the
 result

---
 bimdp/binode.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/bimdp/binode.py b/bimdp/binode.py
index 0867540..186631f 100644
--- a/bimdp/binode.py
+++ b/bimdp/binode.py
@@ -536,7 +536,10 @@ def binode_coroutine(args=None, defaults=()):
             except StopIteration as exception:
                 delattr(self, original_name)
                 del self._coroutine_instances[original_name]
-                if len(exception.args):
+                if len(exception.args) == 1:
+                    # the value returned by the coroutine
+                    return exception.args[0]
+                elif len(exception.args):
                     return exception.args
                 else:
                     return None
@@ -561,7 +564,10 @@ def binode_coroutine(args=None, defaults=()):
             except StopIteration as exception:
                 delattr(self, original_name)
                 del self._coroutine_instances[original_name]
-                if len(exception.args):
+                if len(exception.args) == 1:
+                    # the value returned by the coroutine
+                    return exception.args[0]
+                elif len(exception.args):
                     return exception.args
                 else:
                     return None
-- 
2.43.0


From beda7cdc5bd6d1ea3178a675102a263292647e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:37 +0000
Subject: [PATCH 53/75] fix: the message in the stop_result of a BiNode can be
 None

---
 bimdp/binode.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bimdp/binode.py b/bimdp/binode.py
index 186631f..39891fb 100644
--- a/bimdp/binode.py
+++ b/bimdp/binode.py
@@ -284,7 +284,10 @@ class BiNode(mdp.Node):
                 stored_stop_result = self._stop_result
             # make sure that the original dict in stored_stop_result is not
             # modified (this could have unexpected consequences in some cases)
-            stored_msg = stored_stop_result[0].copy()
+            if stored_stop_result[0]:
+                stored_msg = stored_stop_result[0].copy()
+            else:
+                stored_msg = {}
             if msg:
                 stored_msg.update(msg)
             msg = stored_msg
-- 
2.43.0


From 9a2e5049889346be3fdd47c1bcea3d43329e50e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:12 +0000
Subject: [PATCH 54/75] fix: relative targets outside of the flow raise a
 BiFlowException

---
 bimdp/biflow.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bimdp/biflow.py b/bimdp/biflow.py
index f1508a8..4014c4f 100644
--- a/bimdp/biflow.py
+++ b/bimdp/biflow.py
@@ -558,6 +558,10 @@ class BiFlow(mdp.Flow):
                         return (x, msg)
                 elif i_node == -1:
                     return x, msg, -1
+                elif not 0 <= i_node < len(self.flow):
+                    err = ("Target int value %d references a node outside "
+                           "of the flow." % target)
+                    raise BiFlowException(err)
             else:
                 i_node = self._target_to_index(target, i_node)
                 if not isinstance(i_node, int):
-- 
2.43.0


From 24fe138ac24ff859cba48a1d2e87b57a173018b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:12 +0000
Subject: [PATCH 55/75] fix: start targets that are not in the flow raise a
 BiFlowException

---
 bimdp/biflow.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bimdp/biflow.py b/bimdp/biflow.py
index 4014c4f..dcdd0f4 100644
--- a/bimdp/biflow.py
+++ b/bimdp/biflow.py
@@ -525,6 +525,9 @@ class BiFlow(mdp.Flow):
         current msg is simply carried forward around it.
         """
         ## this method is also used by other classes, like BiFlowNode
+        if not isinstance(i_node, int):
+            # target not found by _target_to_index or EXIT_TARGET
+            return x, msg, i_node
         while i_node != stop_at_node:
             if isinstance(self.flow[i_node], BiNode):
                 result = self.flow[i_node].execute(x, msg)
-- 
2.43.0


From de431168a5b952f23540ce16e051d76b849832ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:12 +0000
Subject: [PATCH 56/75] fix: joining the messages of several chunks does not
 modify them

---
 bimdp/biflow.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bimdp/biflow.py b/bimdp/biflow.py
index dcdd0f4..4cad619 100644
--- a/bimdp/biflow.py
+++ b/bimdp/biflow.py
@@ -68,7 +68,9 @@ class MessageResultContainer(object):
                         self._msg_results[key] = msg[key]
                     else:
                         try:
-                            self._msg_results[key] += msg[key]
+                            # not in place, the values are not our own
+                            self._msg_results[key] = (self._msg_results[key] +
+                                                      msg[key])
                         except:
                             err = ("Could not combine final msg results "
                                    "in BiFlow.")
-- 
2.43.0


From e06273ca76aa0c8ff4afbd0e166622a9bd251530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:12 +0000
Subject: [PATCH 57/75] fix: BiFlow.execute returns None if there are no data
 results in any of the chunks

---
 bimdp/biflow.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bimdp/biflow.py b/bimdp/biflow.py
index 4cad619..e719124 100644
--- a/bimdp/biflow.py
+++ b/bimdp/biflow.py
@@ -348,7 +348,7 @@ class BiFlow(mdp.Flow):
                 else:
                     y_results.append(y)
             else:
-                if y_results is None:
+                if not y_results:
                     y_results = False
                 else:
                     err = "Some but not all y return values were None."
@@ -359,6 +359,8 @@ class BiFlow(mdp.Flow):
         # consolidate results
         if y_results:
             y_results = n.concatenate(y_results)
+        else:
+            y_results = None
         result_msg = msg_results.get_message()
         return y_results, result_msg
 
-- 
2.43.0


From c6e2262e865c400cbdce15e2b3c1508f76b013ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:12 +0000
Subject: [PATCH 58/75] fix: invalid results of a BiNode raise a
 BiFlowException

---
 bimdp/biflow.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bimdp/biflow.py b/bimdp/biflow.py
index e719124..de12693 100644
--- a/bimdp/biflow.py
+++ b/bimdp/biflow.py
@@ -332,7 +332,7 @@ class BiFlow(mdp.Flow):
                 raise BiFlowException(err)
             else:
                 err = ("BiNode execution returned invalid result type: " +
-                       result)
+                       str(result))
                 raise BiFlowException(err)
             self._bi_reset()
             if msg:
@@ -547,7 +547,7 @@ class BiFlow(mdp.Flow):
                     x, msg, target = result
                 else:
                     err = ("BiNode execution returned invalid result type: " +
-                           result)
+                           str(result))
                     raise BiFlowException(err)
             else:
                 # just a normal MDP node
-- 
2.43.0


From f76ad6df1750e0769cb4501ddcdaff71ade99b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:12 +0000
Subject: [PATCH 59/75] fix: BiFlow.execute accepts an iterable of messages
 without data

---
 bimdp/biflow.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bimdp/biflow.py b/bimdp/biflow.py
index de12693..f993897 100644
--- a/bimdp/biflow.py
+++ b/bimdp/biflow.py
@@ -464,6 +464,8 @@ class BiFlow(mdp.Flow):
                 if isinstance(msg_iterable, dict):
                     msg_iterable = [msg_iterable]
                     target_iterable = [target_iterable]
+                elif target_iterable is None:
+                    target_iterable = NoneIterable()
         else:
             if msg_iterable is None:
                 msg_iterable = NoneIterable()
-- 
2.43.0


From 446913789f990602014f7fd59f1537809df439b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:25 +0000
Subject: [PATCH 60/75] fix: a BiFlow does not modify the messages it is given

---
 bimdp/biflow.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/bimdp/biflow.py b/bimdp/biflow.py
index f993897..ae10966 100644
--- a/bimdp/biflow.py
+++ b/bimdp/biflow.py
@@ -178,6 +178,10 @@ class BiFlow(mdp.Flow):
         empty_iterator = True
         for (x, msg) in zip(iterable, msg_iterable):
             empty_iterator = False
+            if msg:
+                # the nodes modify the message, but it is used again in the
+                # next training phase
+                msg = msg.copy()
             ## execute the flow until the nodes return value is right
             i_node = 0
             while True:
@@ -254,7 +258,7 @@ class BiFlow(mdp.Flow):
         if stop_msg is None:
             result = self.flow[nodenr].stop_training()
         else:
-            result = self.flow[nodenr].stop_training(stop_msg)
+            result = self.flow[nodenr].stop_training(stop_msg.copy())
         if result is None:
             # the training phase ends here without an execute phase
             return
@@ -313,6 +317,9 @@ class BiFlow(mdp.Flow):
         for (x, msg, target) in zip(iterable, msg_iterable,
                                                target_iterable):
             empty_iterator = False
+            if msg:
+                # the nodes modify the message
+                msg = msg.copy()
             if not target:
                 i_node = 0
             else:
-- 
2.43.0


From d9f4d8c503bf4e0972c300ce0d47bd620c173fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:34 +0000
Subject: [PATCH 61/75] fix: RBFExpansionNode accepts covariance matrices of
 integers

---
 mdp/nodes/expansion_nodes.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mdp/nodes/expansion_nodes.py b/mdp/nodes/expansion_nodes.py
index d492fc0..dfa6773 100644
--- a/mdp/nodes/expansion_nodes.py
+++ b/mdp/nodes/expansion_nodes.py
@@ -240,6 +240,10 @@ class RBFExpansionNode(mdp.Node):
                        % (sizes.shape[1], self._input_dim))
                 raise mdp.NodeException(msg)
 
+            # the inverse of an integer matrix has fractions
+            if sizes.dtype.kind in 'iu':
+                sizes = sizes.astype('d')
+
             # compute inverse covariance matrix
             for i in range(sizes.shape[0]):
                 sizes[i,:,:] = mdp.utils.inv(sizes[i,:,:])
-- 
2.43.0


From 675e4b69647f21ce07cfe459161d3c935b857063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:42 +0000
Subject: [PATCH 62/75] fix: TimeDelayNode accepts inputs shorter than its
 largest delay

---
 mdp/nodes/misc_nodes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mdp/nodes/misc_nodes.py b/mdp/nodes/misc_nodes.py
index 4bc32d8..7c92801 100644
--- a/mdp/nodes/misc_nodes.py
+++ b/mdp/nodes/misc_nodes.py
@@ -434,7 +434,7 @@ class TimeDelayNode(TimeFramesNode):
         y = numx.zeros((rows, cols), dtype=self.dtype)
 
         for frame in range(self.time_frames):
-            y[gap*frame:, frame*n:(frame+1)*n] = x[:rows-gap*frame, :]
+            y[gap*frame:, frame*n:(frame+1)*n] = x[:max(rows-gap*frame, 0), :]
 
         return y
 
-- 
2.43.0


From dd6dfb19b0682c7ef791167277c34de8df7cb55a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:42 +0000
Subject: [PATCH 63/75] fix: TimeFramesNode returns no rows for inputs shorter
 than a frame

---
 mdp/nodes/misc_nodes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mdp/nodes/misc_nodes.py b/mdp/nodes/misc_nodes.py
index 7c92801..0e0a5a7 100644
--- a/mdp/nodes/misc_nodes.py
+++ b/mdp/nodes/misc_nodes.py
@@ -328,7 +328,7 @@ class TimeFramesNode(Node):
 
     def _execute(self, x):
         gap = self.gap
-        tf = x.shape[0] - (self.time_frames-1)*gap
+        tf = max(x.shape[0] - (self.time_frames-1)*gap, 0)
         rows = self.input_dim
         cols = self.output_dim
         y = numx.zeros((tf, cols), dtype=self.dtype)
-- 
2.43.0


From d10e6d5a614a4dbe6ef338627a4fbe03574e2cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:42 +0000
Subject: [PATCH 64/75] fix: HistogramNode stores a copy of the first chunk

---
 mdp/nodes/misc_nodes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mdp/nodes/misc_nodes.py b/mdp/nodes/misc_nodes.py
index 0e0a5a7..84c7f79 100644
--- a/mdp/nodes/misc_nodes.py
+++ b/mdp/nodes/misc_nodes.py
@@ -901,7 +901,8 @@ class HistogramNode(PreserveDimNode):
         if self.data_hist is not None:
             self.data_hist = numx.concatenate([self.data_hist, x])
         else:
-            self.data_hist = x
+            # the array can be changed by its owner after the training
+            self.data_hist = x.copy()
 
     def _stop_training(self):
         """Pickle the histogram data to file and clear it if required."""
-- 
2.43.0


From 50369220534d1abcd320499ca4fc6461b0ec8bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:42 +0000
Subject: [PATCH 65/75] fix: AdaptiveCutoffNode clips the requested fraction at
 the upper end

---
 mdp/nodes/misc_nodes.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/mdp/nodes/misc_nodes.py b/mdp/nodes/misc_nodes.py
index 84c7f79..0761bcf 100644
--- a/mdp/nodes/misc_nodes.py
+++ b/mdp/nodes/misc_nodes.py
@@ -991,9 +991,8 @@ class AdaptiveCutoffNode(HistogramNode):
                 index = self.lower_cutoff_fraction * len(sorted_data)
                 self.lower_bounds = sorted_data[int(index)]
             if self.upper_cutoff_fraction:
-                index = (len(sorted_data) -
-                         self.upper_cutoff_fraction * len(sorted_data))
-                self.upper_bounds = sorted_data[int(index)]
+                index = self.upper_cutoff_fraction * len(sorted_data)
+                self.upper_bounds = sorted_data[len(sorted_data)-1-int(index)]
         super(AdaptiveCutoffNode, self)._stop_training()
 
     def _execute(self, x):
-- 
2.43.0


From 5aa7157ef501a4a75310fca72b880fd294efd37a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:39 +0000
Subject: [PATCH 66/75] fix: keep training the terminal node of an OnlineFlow
 for the whole stream

OnlineFlow._train_nodes executed the terminal node after every sample;
executing a trainable (not online) Node ends its training, so that only
the first sample was used.
---
 mdp/linear_flows_online.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mdp/linear_flows_online.py b/mdp/linear_flows_online.py
index 743404a..6636c94 100644
--- a/mdp/linear_flows_online.py
+++ b/mdp/linear_flows_online.py
@@ -137,8 +137,10 @@ class OnlineFlow(mdp.Flow):
                         if node.is_training():
                             node.train(x)
 
-                    # input for the next node
-                    x = node.execute(x)
+                    # input for the next node (executing a terminal trainable
+                    # Node would end its training)
+                    if nodenr < len(self.flow) - 1:
+                        x = node.execute(x)
                 except FlowExceptionCR as e:
                     # this exception was already propagated,
                     # probably during the execution  of a node upstream in the flow
-- 
2.43.0


From 1a39907ee3bb57a318a25206b42cb5eabff8a084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:07 +0000
Subject: [PATCH 67/75] fix: invert a CircularOnlineFlow from its output node

The nodes are kept in a deque, which cannot be sliced, and the output node
itself, whose output `execute` returns, was left out.
---
 mdp/linear_flows_online.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mdp/linear_flows_online.py b/mdp/linear_flows_online.py
index 6636c94..a310716 100644
--- a/mdp/linear_flows_online.py
+++ b/mdp/linear_flows_online.py
@@ -543,7 +543,7 @@ class CircularOnlineFlow(OnlineFlow):
 
     def _inverse_seq(self, x):
         # Successively invert input data 'x' through all nodes backwards from the output node to the input node.
-        flow = self.flow[:self.output_node_idx]
+        flow = list(self.flow)[:self.output_node_idx + 1]
         for i in range(len(flow) - 1, -1, -1):
             try:
                 x = flow[i].inverse(x)
-- 
2.43.0


From 913579ed5b20d04ea86e4b67cee9f28973e05842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:07 +0000
Subject: [PATCH 68/75] fix: refuse node index len(flow) as input or output
 node of a CircularOnlineFlow

---
 mdp/linear_flows_online.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mdp/linear_flows_online.py b/mdp/linear_flows_online.py
index a310716..8c79b79 100644
--- a/mdp/linear_flows_online.py
+++ b/mdp/linear_flows_online.py
@@ -553,7 +553,7 @@ class CircularOnlineFlow(OnlineFlow):
 
     def set_input_node(self, node_idx):
         """Set the input node of the flow"""
-        if (node_idx > len(self.flow)) or (node_idx < 0):
+        if (node_idx >= len(self.flow)) or (node_idx < 0):
             raise CircularOnlineFlowException(
                 "Accepted 'node_idx' values: 0 <= node_idx < %d, given %d" % (len(self.flow), node_idx))
         self.flow.rotate(-node_idx)
@@ -561,7 +561,7 @@ class CircularOnlineFlow(OnlineFlow):
 
     def set_output_node(self, node_idx):
         """Set the output node of the flow"""
-        if (node_idx > len(self.flow)) or (node_idx < 0):
+        if (node_idx >= len(self.flow)) or (node_idx < 0):
             raise CircularOnlineFlowException(
                 "Accepted 'node_idx' values: 0 <= node_idx < %d, given %d" % (len(self.flow), node_idx))
         self.output_node_idx = node_idx
-- 
2.43.0


From ff8eac7870ddf00c6e49b18d11993b76e7315bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:07 +0000
Subject: [PATCH 69/75] fix: store the given input of a CircularOnlineFlow
 whose input dimension is not set yet

---
 mdp/linear_flows_online.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mdp/linear_flows_online.py b/mdp/linear_flows_online.py
index 8c79b79..833cc9f 100644
--- a/mdp/linear_flows_online.py
+++ b/mdp/linear_flows_online.py
@@ -428,7 +428,7 @@ class CircularOnlineFlow(OnlineFlow):
             if x.shape[-1] != self.flow[0].input_dim:
                 raise CircularOnlineFlowException(
                     "Dimension mismatch! should be %d, given %d" % (self.flow[0].input_dim, x.shape[-1]))
-            self._stored_input = x
+        self._stored_input = x
 
     def get_stored_input(self):
         """return the current stored input"""
-- 
2.43.0


From cc2ff6b45aa67a1db25f3cf2bf2f6eeb3997e464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:19 +0000
Subject: [PATCH 70/75] fix: stop the training of online flow nodes starting
 with a non-trainable node

The empty stop-training function of the leading nodes required an argument.
---
 mdp/hinet/flownode_online.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mdp/hinet/flownode_online.py b/mdp/hinet/flownode_online.py
index 1eb5067..8bf3705 100644
--- a/mdp/hinet/flownode_online.py
+++ b/mdp/hinet/flownode_online.py
@@ -107,7 +107,7 @@ class OnlineFlowNode(FlowNode, mdp.OnlineNode):
             return _execute
 
         def get_empty_function():
-            def _empty(x, *args, **kwargs):
+            def _empty(*args, **kwargs):
                 pass
 
             return _empty
@@ -251,7 +251,7 @@ class CircularOnlineFlowNode(FlowNode, mdp.OnlineNode):
             return _execute
 
         def get_empty_function():
-            def _empty(x, *args, **kwargs):
+            def _empty(*args, **kwargs):
                 pass
 
             return _empty
-- 
2.43.0


From 78e8e0effa214607d226a56409fdbf12ccfeddbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:19 +0000
Subject: [PATCH 71/75] fix: do not train the trained nodes of online flow
 nodes

Trained nodes are supported in the flow of an (Circular)OnlineFlowNode,
but train raised a TrainingFinishedException.
---
 mdp/hinet/flownode_online.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/mdp/hinet/flownode_online.py b/mdp/hinet/flownode_online.py
index 8bf3705..b0ead76 100644
--- a/mdp/hinet/flownode_online.py
+++ b/mdp/hinet/flownode_online.py
@@ -115,7 +115,9 @@ class OnlineFlowNode(FlowNode, mdp.OnlineNode):
         trainable_nodes_nrs = []  # list of trainable node ids
         trainable_nodes = []  # list of trainable nodes
         for i_node, node in enumerate(self._flow):
-            if node.is_trainable():
+            # trained nodes are only executed
+            if node.is_trainable() and (self._pretrained_phase[i_node] <
+                                        len(node._get_train_seq())):
                 trainable_nodes_nrs.append(i_node)
                 trainable_nodes.append(node)
 
@@ -283,7 +285,9 @@ class CircularOnlineFlowNode(FlowNode, mdp.OnlineNode):
         trainable_nodes_nrs = []  # list of trainable node ids
         trainable_nodes = []  # list of trainable nodes
         for i_node, node in enumerate(self._flow):
-            if node.is_trainable():
+            # trained nodes are only executed
+            if node.is_trainable() and (self._pretrained_phase[i_node] <
+                                        len(node._get_train_seq())):
                 trainable_nodes_nrs.append(i_node)
                 trainable_nodes.append(node)
 
-- 
2.43.0


From 7b02a6bfb706acde54d57ca2d36e01e5cf926883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:15 +0000
Subject: [PATCH 72/75] fix: do not end the training of a terminal OnlineNode
 with several phases

All phases of an OnlineNode are active together, stop_training closes them all.
---
 mdp/linear_flows_online.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mdp/linear_flows_online.py b/mdp/linear_flows_online.py
index 833cc9f..0b9faf4 100644
--- a/mdp/linear_flows_online.py
+++ b/mdp/linear_flows_online.py
@@ -167,7 +167,7 @@ class OnlineFlow(mdp.Flow):
                            "is empty.")
                 raise FlowException(err_str)
         self._stop_training_hook()
-        if self.flow[-1].get_remaining_train_phase() > 1:
+        if (not isinstance(self.flow[-1], mdp.OnlineNode)) and (self.flow[-1].get_remaining_train_phase() > 1):
             # close the previous training phase
             self.flow[-1].stop_training()
 
-- 
2.43.0


From b4a6879b334343829d43dbecbdf2e2bb894f007e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:50 +0000
Subject: [PATCH 73/75] fix: train online layers like online nodes

The documentation wrappers of Layer, CloneLayer and SameInputLayer hide
OnlineNode.train and stop_training behind those of Node, so that no training
iterations were counted and the samples came in one block.
---
 mdp/hinet/layer_online.py | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/mdp/hinet/layer_online.py b/mdp/hinet/layer_online.py
index 9911284..5f4fbdc 100644
--- a/mdp/hinet/layer_online.py
+++ b/mdp/hinet/layer_online.py
@@ -94,6 +94,13 @@ class OnlineLayer(Layer, mdp.OnlineNode):
         """
         return mdp.OnlineNode._get_train_seq(self)
 
+    # the wrappers of the layer classes call the methods of Node
+    def train(self, x, *args, **kwargs):
+        return mdp.OnlineNode.train(self, x, *args, **kwargs)
+
+    def stop_training(self, *args, **kwargs):
+        return mdp.OnlineNode.stop_training(self, *args, **kwargs)
+
 
 class CloneOnlineLayer(CloneLayer, OnlineLayer):
     """OnlineLayer with a single node instance that is used multiple times.
@@ -123,6 +130,13 @@ class CloneOnlineLayer(CloneLayer, OnlineLayer):
         # set training type
         self._set_training_type_from_nodes([node])
 
+    # the wrappers of the layer classes call the methods of Node
+    def train(self, x, *args, **kwargs):
+        return mdp.OnlineNode.train(self, x, *args, **kwargs)
+
+    def stop_training(self, *args, **kwargs):
+        return mdp.OnlineNode.stop_training(self, *args, **kwargs)
+
 
 class SameInputOnlineLayer(SameInputLayer, OnlineLayer):
     """SameInputOnlineLayer is an OnlineLayer were all nodes receive the full input.
@@ -147,3 +161,10 @@ class SameInputOnlineLayer(SameInputLayer, OnlineLayer):
         self.numx_rng = numx_rng
         # set training type
         self._set_training_type_from_nodes(nodes)
+
+    # the wrappers of the layer classes call the methods of Node
+    def train(self, x, *args, **kwargs):
+        return mdp.OnlineNode.train(self, x, *args, **kwargs)
+
+    def stop_training(self, *args, **kwargs):
+        return mdp.OnlineNode.stop_training(self, *args, **kwargs)
-- 
2.43.0


From 230d778d20c8eaaae147bf5cde39eaa0c8c28b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:59 +0000
Subject: [PATCH 74/75] fix: PCANode never keeps more components than there are
 eigenvalues

With output_dim=1.0 the cumulated variances may stay just below 1 because of
roundoff; the output dimension was then set to one more than the number of
components that execute returns.
---
 mdp/nodes/pca_nodes.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mdp/nodes/pca_nodes.py b/mdp/nodes/pca_nodes.py
index d9ea36d..543258c 100644
--- a/mdp/nodes/pca_nodes.py
+++ b/mdp/nodes/pca_nodes.py
@@ -256,6 +256,10 @@ class PCANode(mdp.Node):
             # select only the relevant eigenvalues
             # number of relevant eigenvalues
             neigval = int(varcum.searchsorted(self.desired_variance) + 1.)
+            if neigval > d.shape[0] > 0:
+                # because of roundoff errors even all components together
+                # may explain slightly less than the desired variance
+                neigval = d.shape[0]
             #self.explained_variance = varcum[neigval-1]
             # cut
             d = d[0:neigval]
-- 
2.43.0


From 8264b25d779602f03bc7416a6d02bf358ebdd4f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:55 +0000
Subject: [PATCH 75/75] fix: ClassifierCumulator accepts lists, tuples and
 single labels

_train prepared for them but then called ndarray's ravel on the labels.
---
 mdp/classifier_node.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mdp/classifier_node.py b/mdp/classifier_node.py
index 41a3f1a..bdbe268 100644
--- a/mdp/classifier_node.py
+++ b/mdp/classifier_node.py
@@ -118,12 +118,12 @@ class ClassifierCumulator(VariadicCumulator('data', 'labels'), ClassifierNode):
         self.data.extend(x.ravel().tolist())
 
         # if labels is a number, all x's belong to the same class
-        if isinstance(labels, (list, tuple, numx.ndarray)):
-            pass
-        else:
+        if isinstance(labels, numx.ndarray):
+            labels = labels.ravel().tolist()
+        elif not isinstance(labels, (list, tuple)):
             labels = [labels] * x.shape[0]
 
-        self.labels.extend(labels.ravel().tolist())
+        self.labels.extend(labels)
 
     def _stop_training(self, *args, **kwargs):
         """Transform the data and labels lists to array objects and reshape them."""
-- 
2.43.0

