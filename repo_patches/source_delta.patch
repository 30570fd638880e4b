From 52add30da18d045e9891a4e599348fc7f173be6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:19 +0000
Subject: [PATCH 001/123] fix: keep opset imports and properties of models
 without a producer name when re-exporting

---
 tf2onnx/graph.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/tf2onnx/graph.py b/tf2onnx/graph.py
index 241a82e..6af9dd0 100644
--- a/tf2onnx/graph.py
+++ b/tf2onnx/graph.py
@@ -1191,10 +1191,8 @@ class Graph(object):
         graph = self.make_graph(graph_doc, graph_name, external_tensor_storage)
 
         if "producer_name" not in kwargs:
-            kwargs = {
-                "producer_name": "tf2onnx",
-                "producer_version": __version__ + " " + git_version[:6]
-            }
+            kwargs["producer_name"] = "tf2onnx"
+            kwargs["producer_version"] = __version__ + " " + git_version[:6]
         if "opset_imports" not in kwargs:
             opsets = [helper.make_opsetid(constants.ONNX_DOMAIN, self._opset)]
             opsets.append(constants.AI_ONNX_ML_OPSET)
-- 
2.43.0


From ffd16b080bf65f84eb3e9d0018da187fa38584ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:48 +0000
Subject: [PATCH 002/123] fix: do not drop a reshape when the following reshape
 copies one of its dims

---
 tf2onnx/optimizer/back_to_back_optimizer.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/tf2onnx/optimizer/back_to_back_optimizer.py b/tf2onnx/optimizer/back_to_back_optimizer.py
index 3fa1a0e..4e9fec2 100644
--- a/tf2onnx/optimizer/back_to_back_optimizer.py
+++ b/tf2onnx/optimizer/back_to_back_optimizer.py
@@ -267,6 +267,20 @@ class BackToBackOptimizer(GraphOptimizerBase):
         if node2.type != 'Reshape':
             return []
 
+        # a 0 copies the dim from the input of the second reshape, which is about to change
+        if not node2.get_attr_value('allowzero', 0):
+            if not node2.inputs[1].is_const():
+                return []
+            dims = node2.inputs[1].get_tensor_value(as_list=True)
+            inp_shape = g.get_shape(node.input[0])
+            mid_shape = g.get_shape(node.output[0])
+            for i, d in enumerate(dims):
+                if d != 0:
+                    continue
+                if inp_shape is None or mid_shape is None or len(inp_shape) <= i \
+                        or inp_shape[i] == -1 or inp_shape[i] != mid_shape[i]:
+                    return []
+
         g.replace_inputs(node2, [node.input[0], node2.input[1]])
         g.remove_node(node.name)
         return []
-- 
2.43.0


From 16598862fa8ee734c2ae4d7e24b51765b2adcf8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:49 +0000
Subject: [PATCH 003/123] fix: q_dq optimizer treats a 1D scale without axis
 attribute as per channel

---
 tf2onnx/optimizer/q_dq_optimizer.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/tf2onnx/optimizer/q_dq_optimizer.py b/tf2onnx/optimizer/q_dq_optimizer.py
index 7545b40..e368af8 100644
--- a/tf2onnx/optimizer/q_dq_optimizer.py
+++ b/tf2onnx/optimizer/q_dq_optimizer.py
@@ -34,7 +34,7 @@ class QDQOptimizer(GraphOptimizerBase):
         return graph
 
     def _optimize_quantize(self, quant_node, graph):
-        if 'axis' in quant_node.attr:
+        if self.is_per_channel(quant_node, graph):
             return False
         node = quant_node.inputs[0]
         if node.type == "DequantizeLinear":
@@ -80,7 +80,7 @@ class QDQOptimizer(GraphOptimizerBase):
         return True
 
     def _optimize_dequantize(self, dequant_node, graph):
-        if 'axis' in dequant_node.attr:
+        if self.is_per_channel(dequant_node, graph):
             return False
         # Push dequantize nodes down
         consumers = graph.find_output_consumers(dequant_node.output[0])
@@ -117,6 +117,10 @@ class QDQOptimizer(GraphOptimizerBase):
 
         return True
 
+    def is_per_channel(self, node, graph):
+        # since opset 13 a 1D scale is per channel, and axis defaults to 1
+        return 'axis' in node.attr or (graph.opset >= 13 and graph.get_shape(node.input[1]) not in [[], [1]])
+
     def has_same_quantization_params(self, node1, node2):
         if node1.get_attr_value("axis") != node2.get_attr_value("axis"):
             return False
-- 
2.43.0


From f382d689c09b0e03aa243d8a8d42153d89f5dc7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:49 +0000
Subject: [PATCH 004/123] fix: reshape optimizer leaves a reshape that is a
 graph output when it needs a squeeze after it

---
 tf2onnx/optimizer/reshape_optimizer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tf2onnx/optimizer/reshape_optimizer.py b/tf2onnx/optimizer/reshape_optimizer.py
index 3e5974b..e655db6 100644
--- a/tf2onnx/optimizer/reshape_optimizer.py
+++ b/tf2onnx/optimizer/reshape_optimizer.py
@@ -93,6 +93,9 @@ class ReshapeOptimizer(GraphOptimizerBase):
             new_shape = [get_reshape_dim(v, i, shift) for i, v in enumerate(symbolic_shape)]
         if new_shape.count(-1) > 1:
             return False
+        if shift > 0 and node.output[0] in graph.outputs:
+            # The squeeze can't be inserted after a graph output
+            return False
 
         new_reshape_shape = None
         if shift > 0:
-- 
2.43.0


From ad2c3da7aa4a8f2539ccb82efc11eaef7a88bd6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:49 +0000
Subject: [PATCH 005/123] fix: folding a constant reshape honours allowzero

---
 tf2onnx/optimizer/transpose_optimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tf2onnx/optimizer/transpose_optimizer.py b/tf2onnx/optimizer/transpose_optimizer.py
index f2c91c7..74fe8a7 100644
--- a/tf2onnx/optimizer/transpose_optimizer.py
+++ b/tf2onnx/optimizer/transpose_optimizer.py
@@ -72,7 +72,7 @@ class TransposeOptimizer(GraphOptimizerBase):
             target_t = reshape_op.inputs[0].get_tensor_value(as_list=False)
             target_shape = reshape_op.inputs[1].get_tensor_value(as_list=True)
             for i, dim in enumerate(target_shape):
-                if dim == 0:
+                if dim == 0 and not reshape_op.get_attr_value("allowzero", 0):
                     # In ORT a dim of 0 means the shape stays the same.
                     target_shape[i] = target_t.shape[i]
             new_data = np.reshape(target_t, target_shape)
-- 
2.43.0


From 0e66ff1dce8d85e76f81451290a75f9c63f00308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:49 +0000
Subject: [PATCH 006/123] fix: transpose optimizer does not add transpose pairs
 it cannot use (endless loop)

---
 tf2onnx/optimizer/transpose_optimizer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tf2onnx/optimizer/transpose_optimizer.py b/tf2onnx/optimizer/transpose_optimizer.py
index 74fe8a7..c25b8a7 100644
--- a/tf2onnx/optimizer/transpose_optimizer.py
+++ b/tf2onnx/optimizer/transpose_optimizer.py
@@ -246,6 +246,10 @@ class TransposeOptimizer(GraphOptimizerBase):
     def _handle_node_having_branches(self, trans, node):
         if not self._should_push_transpose(trans, node) or len(node.output) != 1:
             return False
+        # don't add transpose pairs that could not be used afterwards: they would be folded and added again forever
+        perm = trans.get_attr_value("perm")
+        if not self._nodes_has_single_consumer_node([n for n in node.inputs if is_tranpose_of_type(n, perm)]):
+            return False
         # create transpose pairs if some input are not.
         if not self._create_transpose_pairs_before_node(trans, node):
             return False
-- 
2.43.0


From b52c03a89c7cffc652373b121a81797ae7c3f172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:49 +0000
Subject: [PATCH 007/123] fix: transpose optimizer keeps shapes of moved
 transposes in step

---
 tf2onnx/optimizer/transpose_optimizer.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/tf2onnx/optimizer/transpose_optimizer.py b/tf2onnx/optimizer/transpose_optimizer.py
index c25b8a7..2163de7 100644
--- a/tf2onnx/optimizer/transpose_optimizer.py
+++ b/tf2onnx/optimizer/transpose_optimizer.py
@@ -315,6 +315,9 @@ class TransposeOptimizer(GraphOptimizerBase):
             new_shape = [shape[i] for i in perm_inv]
             self._g.set_shape(node.output[0], new_shape)
             self._g.set_shape(trans.output[0], shape)
+        elif update_shape:
+            # the shape trans had before does not describe its output any longer
+            self._g.set_shape(trans.output[0], None)
         return True
 
     # if return value is True, then it means Transpose is handled as designed
@@ -558,6 +561,11 @@ class TransposeOptimizer(GraphOptimizerBase):
             self._g.replace_input(node, node.input[0], trans.input[0], 0)
             self._g.replace_input(node, node.input[1], trans.input[0], 1)
             self._g.replace_input(trans, trans.input[0], node.output[0], 0)
+            shape = self._g.get_shape(node.output[0])
+            if shape:
+                perm_inv = invert_perm(trans.get_attr_value("perm"))
+                self._g.set_shape(node.output[0], [shape[i] for i in perm_inv])
+                self._g.set_shape(trans.output[0], shape)
             return True
 
         # convert  mul(trans(x), trans(y)) ->  trans(mul(x, y))
@@ -755,6 +763,8 @@ class TransposeOptimizer(GraphOptimizerBase):
             self._g.set_shape(trans.output[0], shape)
             mid_shape = [shape[p] for p in new_perm_inv]
             self._g.set_shape(node.output[0], mid_shape)
+        else:
+            self._g.set_shape(trans.output[0], None)
 
         return True
 
@@ -905,6 +915,7 @@ class TransposeOptimizer(GraphOptimizerBase):
                     remaining_axes.append(j)
                     j += 1
             new_perm = [remaining_axes[p] for p in perm if remaining_axes[p] is not None]
+            self._g.set_shape(trans.output[0], shape)
             if shape:
                 new_shape = [shape[new_perm.index(i)] for i in range(len(new_perm))]
                 self._g.set_shape(node.output[0], new_shape)
-- 
2.43.0


From 67f07ef03a4c9ef12ba8d773a25bd11a1aaba060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:49 +0000
Subject: [PATCH 008/123] fix: transpose optimizer does not push a transpose
 into a nested body

---
 tf2onnx/optimizer/transpose_optimizer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tf2onnx/optimizer/transpose_optimizer.py b/tf2onnx/optimizer/transpose_optimizer.py
index 2163de7..f4ac3aa 100644
--- a/tf2onnx/optimizer/transpose_optimizer.py
+++ b/tf2onnx/optimizer/transpose_optimizer.py
@@ -333,6 +333,10 @@ class TransposeOptimizer(GraphOptimizerBase):
                 self.logger.debug("cannot move transpose down since it met output node %s", p.name)
                 return False
 
+            if p.graph is not self._g and p.type not in ["Transpose", "Identity"]:
+                self.logger.debug("cannot move transpose down into the body graph with %s", p.name)
+                return False
+
             if p.type in self._handler_map:
                 op_handler = self._handler_map[p.type]
                 return op_handler(trans, p)
-- 
2.43.0


From b7ade1aad1f9f5ddbd1d314b6ef864d19dcce867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:49 +0000
Subject: [PATCH 009/123] fix: transpose optimizer counts consumers in nested
 bodies and graph outputs

---
 tf2onnx/optimizer/transpose_optimizer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tf2onnx/optimizer/transpose_optimizer.py b/tf2onnx/optimizer/transpose_optimizer.py
index f4ac3aa..a620258 100644
--- a/tf2onnx/optimizer/transpose_optimizer.py
+++ b/tf2onnx/optimizer/transpose_optimizer.py
@@ -357,8 +357,9 @@ class TransposeOptimizer(GraphOptimizerBase):
     def _nodes_has_single_consumer_node(self, nodes):
         for n in nodes:
             for output in n.output:
-                cnt = len(set(self._g.find_output_consumers(output)))
-                if cnt != 1:
+                # look from the graph the node lives in: a body can use nodes of the graphs around it
+                cnt = len(set(n.graph.find_output_consumers(output)))
+                if cnt != 1 or output in n.graph.outputs:
                     return False
         return True
 
-- 
2.43.0


From ce21905fa34aaaa7bf1a7207b1e63bb93f7c816b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:49 +0000
Subject: [PATCH 010/123] fix: transpose optimizer leaves nodes that broadcast
 to a higher rank than the transpose

---
 tf2onnx/optimizer/transpose_optimizer.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tf2onnx/optimizer/transpose_optimizer.py b/tf2onnx/optimizer/transpose_optimizer.py
index a620258..048e48d 100644
--- a/tf2onnx/optimizer/transpose_optimizer.py
+++ b/tf2onnx/optimizer/transpose_optimizer.py
@@ -455,6 +455,12 @@ class TransposeOptimizer(GraphOptimizerBase):
                 self.logger.warning(msg)
                 return False
 
+        for input_id, _ in non_nhwc_trans_inputs:
+            shape = self._g.get_shape(input_id)
+            if shape is not None and len(shape) > trans_rank:
+                # the node broadcasts to more dims than the transpose has
+                return False
+
         for input_id, n in non_nhwc_trans_inputs:
             shape = self._g.get_shape(input_id)
             # if rank of n is not transpose rank, then we need to insert a reshape op before inserting a transpose
-- 
2.43.0


From a12d7668094aa2a6cb850a067429b302b03bfb25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:49 +0000
Subject: [PATCH 011/123] fix: only merge an Add into Conv as bias when it is
 along the channel dim, without changing shared constants

---
 tf2onnx/optimizer/transpose_optimizer.py | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/tf2onnx/optimizer/transpose_optimizer.py b/tf2onnx/optimizer/transpose_optimizer.py
index 048e48d..d925423 100644
--- a/tf2onnx/optimizer/transpose_optimizer.py
+++ b/tf2onnx/optimizer/transpose_optimizer.py
@@ -508,20 +508,30 @@ class TransposeOptimizer(GraphOptimizerBase):
                 target_node = node.inputs[1]
                 numpy_val = target_node.get_tensor_value(as_list=False)
                 # Optional 1D bias to be added to the convolution, has size of M
-                if len(numpy_val.shape) - numpy_val.shape.count(1) > 1:
+                perm = trans.get_attr_value("perm")
+                # where the channel dim ends up after the transpose, counted from the end
+                channel_dim = perm.index(1) - len(perm)
+                bias_shape = [1] * (len(perm) - len(numpy_val.shape)) + list(numpy_val.shape)
+                bias_size = bias_shape[channel_dim]
+                if len(bias_shape) > len(perm) or np.prod(bias_shape) != bias_size:
                     self.logger.debug("Bias is not 1D, can not merge Conv and Add")
                     return self._handle_node_having_branches(trans, node)
 
-                bias_size = max(numpy_val.shape)
-                size_m = t_p.inputs[1].output_shapes[0][0]
+                weights_shape = t_p.inputs[1].output_shapes[0]
+                if weights_shape is None:
+                    return self._handle_node_having_branches(trans, node)
+                if t_p.type == "Conv":
+                    size_m = weights_shape[0]
+                else:
+                    size_m = weights_shape[1] * t_p.get_attr_value("group", 1)
                 if bias_size != size_m:
                     self.logger.debug("Bias size is not M, can not merge Conv and Add")
                     return self._handle_node_having_branches(trans, node)
 
-                target_val = numpy_val.reshape(bias_size)
-                target_node.set_tensor_value(target_val)
+                # the original constant might be shared
+                target_node = self._g.make_const(utils.make_name(target_node.name), numpy_val.reshape(bias_size))
 
-                conv_inputs = [t_p.input[0], t_p.input[1], node.input[1]]
+                conv_inputs = [t_p.input[0], t_p.input[1], target_node.output[0]]
                 conv_node = self._g.make_node(t_p.type, conv_inputs, attr=t_p.get_onnx_attrs())
                 self._g.replace_input(trans, trans.input[0], utils.port_name(conv_node.name), 0)
                 self._g.replace_all_inputs(node.output[0], trans.output[0])  # ops=self._g.get_nodes()
-- 
2.43.0


From e2eff871990257cefb0c917248d9a573c9bfb3f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:49 +0000
Subject: [PATCH 012/123] fix: transpose is not moved over a Mul with a
 constant of higher rank

---
 tf2onnx/optimizer/transpose_optimizer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tf2onnx/optimizer/transpose_optimizer.py b/tf2onnx/optimizer/transpose_optimizer.py
index d925423..d3a21a7 100644
--- a/tf2onnx/optimizer/transpose_optimizer.py
+++ b/tf2onnx/optimizer/transpose_optimizer.py
@@ -605,6 +605,9 @@ class TransposeOptimizer(GraphOptimizerBase):
         if not multiplier_input_node.is_const():
             return False
         multiplier = multiplier_input_node.get_tensor_value(as_list=False)
+        if len(multiplier.shape) > get_transpose_rank(trans):
+            # the result has more dims than the transpose
+            return False
 
         # todo: apply this block if we have model case multiplier_input_id==0, and verify that.
         if multiplier_input_id == node.input[1]:
-- 
2.43.0


From b7ef8b422cd60708d5520667613d6b0c4b212b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:49 +0000
Subject: [PATCH 013/123] fix: merging Mul into Conv weights checks shapes and
 leaves shared weights alone

---
 tf2onnx/optimizer/transpose_optimizer.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/tf2onnx/optimizer/transpose_optimizer.py b/tf2onnx/optimizer/transpose_optimizer.py
index d3a21a7..1a8b09e 100644
--- a/tf2onnx/optimizer/transpose_optimizer.py
+++ b/tf2onnx/optimizer/transpose_optimizer.py
@@ -625,11 +625,15 @@ class TransposeOptimizer(GraphOptimizerBase):
                 transposed_val = np.transpose(numpy_val, (2, 3, 1, 0))
                 mul_val = multiplier
                 result = np.multiply(transposed_val, mul_val)
-                conv.inputs[1].set_tensor_value(np.transpose(result, (3, 2, 0, 1)))
-
-                self._g.replace_all_inputs(node.output[0], trans.output[0])  # ops=self._g.get_nodes()
-                self._g.remove_node(node.name)
-                return True
+                if result.shape == transposed_val.shape:
+                    # the original weights might be shared
+                    new_weights = self._g.make_const(utils.make_name(conv.inputs[1].name),
+                                                     np.transpose(result, (3, 2, 0, 1)))
+                    self._g.replace_input(conv, conv.input[1], new_weights.output[0], 1)
+
+                    self._g.replace_all_inputs(node.output[0], trans.output[0])  # ops=self._g.get_nodes()
+                    self._g.remove_node(node.name)
+                    return True
 
         # if the shape is (), we just move transpose after the mul
         if not multiplier.shape:
-- 
2.43.0


From da3345fd44dc3375859751a5988d9627d83f1b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:49 +0000
Subject: [PATCH 014/123] fix: transpose over Sum transposes a repeated
 constant only once

---
 tf2onnx/optimizer/transpose_optimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tf2onnx/optimizer/transpose_optimizer.py b/tf2onnx/optimizer/transpose_optimizer.py
index 1a8b09e..1cbfdbf 100644
--- a/tf2onnx/optimizer/transpose_optimizer.py
+++ b/tf2onnx/optimizer/transpose_optimizer.py
@@ -693,7 +693,7 @@ class TransposeOptimizer(GraphOptimizerBase):
             self._g.set_shape(node.output[0], [shape[i] for i in untrans_idx])
 
         # update constants, remove dangling transposes
-        for n in inputs:
+        for n in set(inputs):
             if n.is_const():
                 val = n.get_tensor_value(as_list=False)
                 new_val = np.transpose(val, untrans_idx)
-- 
2.43.0


From 9b334a9a470569219c0f7e0200f7949c61c1558b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:49 +0000
Subject: [PATCH 015/123] fix: transpose is not moved over Split with computed
 split sizes

---
 tf2onnx/optimizer/transpose_optimizer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tf2onnx/optimizer/transpose_optimizer.py b/tf2onnx/optimizer/transpose_optimizer.py
index 1cbfdbf..ccdd94a 100644
--- a/tf2onnx/optimizer/transpose_optimizer.py
+++ b/tf2onnx/optimizer/transpose_optimizer.py
@@ -722,6 +722,8 @@ class TransposeOptimizer(GraphOptimizerBase):
     def _split_handler(self, trans, node):
         # Todo: need handle cases where Split node has more than 1 outputs.
         split = None
+        if len(node.input) > 1 and not node.inputs[1].is_const():
+            return False
         if self._g.opset >= 13 and len(node.input) > 1 and node.inputs[1].is_const():
             # split is an input not attr since opset 13
             split = node.inputs[1].get_tensor_value(as_list=True)
-- 
2.43.0


From 67d21822f5b980e0d5ce11407cbb1fb73337f0dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:49 +0000
Subject: [PATCH 016/123] fix: transpose is not moved over Pad with explicit
 axes

---
 tf2onnx/optimizer/transpose_optimizer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tf2onnx/optimizer/transpose_optimizer.py b/tf2onnx/optimizer/transpose_optimizer.py
index ccdd94a..c36cf27 100644
--- a/tf2onnx/optimizer/transpose_optimizer.py
+++ b/tf2onnx/optimizer/transpose_optimizer.py
@@ -864,6 +864,10 @@ class TransposeOptimizer(GraphOptimizerBase):
         def permute_pads(pads):
             return [pads[i] for i in perm_inv] + [pads[i + trans_rank] for i in perm_inv]
 
+        if len(node.input) > 3 and node.input[3]:
+            # since opset 18 pads can be given for some axes only
+            return False
+
         if self._g.opset < 11:
             pads = node.get_attr('pads').ints  # [x1_begin, x2_begin...x1_end, x2_end,...]
             new_pads = np.array(permute_pads(pads), np.int64)
-- 
2.43.0


From 937c48a5d19b7569b7d04f287d4f4f66367585c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:49 +0000
Subject: [PATCH 017/123] fix: do not use the num_outputs attribute of Split
 before opset 18

---
 tf2onnx/optimizer/transpose_optimizer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tf2onnx/optimizer/transpose_optimizer.py b/tf2onnx/optimizer/transpose_optimizer.py
index c36cf27..7ba2bac 100644
--- a/tf2onnx/optimizer/transpose_optimizer.py
+++ b/tf2onnx/optimizer/transpose_optimizer.py
@@ -886,8 +886,8 @@ class TransposeOptimizer(GraphOptimizerBase):
         # when the second input is not a constant, let's shuffle it with Split followed by Concat
         # there are examples of models, where this non-constant input
         # gets constant folded anyway by a framework.
-        split = self._g.make_node("Split", inputs=[node.input[1]], attr={'num_outputs': trans_rank * 2},
-                                  output_count=trans_rank * 2)
+        split_attr = {'num_outputs': trans_rank * 2} if self._g.opset >= 18 else {}
+        split = self._g.make_node("Split", inputs=[node.input[1]], attr=split_attr, output_count=trans_rank * 2)
         pads = split.output
         new_pads = self._g.make_node("Concat", permute_pads(pads), {'axis': 0})
         self._g.replace_input(node, node.input[1], new_pads.output[0], 1)
-- 
2.43.0


From a728ec56a19e91e1806878cdbb3fdf9875125575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:49 +0000
Subject: [PATCH 018/123] fix: transpose over Softmax handles a negative axis
 before opset 13

---
 tf2onnx/optimizer/transpose_optimizer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tf2onnx/optimizer/transpose_optimizer.py b/tf2onnx/optimizer/transpose_optimizer.py
index 7ba2bac..3b6b331 100644
--- a/tf2onnx/optimizer/transpose_optimizer.py
+++ b/tf2onnx/optimizer/transpose_optimizer.py
@@ -912,6 +912,8 @@ class TransposeOptimizer(GraphOptimizerBase):
         # For older opsets, the "axis" attribute determines the coercion point for coercing the input tensor to 2D.
         # We can safely switch transpose and node if the permutation does not make any axes cross that boundary.
         coercion_axis = node.get_attr_value("axis", 1)
+        if coercion_axis < 0:
+            coercion_axis += trans_rank
         for from_axis, to_axis in enumerate(perm):
             if (from_axis < coercion_axis <= to_axis) or (from_axis >= coercion_axis > to_axis):
                 return False
-- 
2.43.0


From ad16483db590497772666fb423fcabb4fbc9a689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:49 +0000
Subject: [PATCH 019/123] fix: transpose over Slice copies an axes constant
 that is also another input

---
 tf2onnx/optimizer/transpose_optimizer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tf2onnx/optimizer/transpose_optimizer.py b/tf2onnx/optimizer/transpose_optimizer.py
index 3b6b331..a2d23e0 100644
--- a/tf2onnx/optimizer/transpose_optimizer.py
+++ b/tf2onnx/optimizer/transpose_optimizer.py
@@ -1020,9 +1020,9 @@ class TransposeOptimizer(GraphOptimizerBase):
             axes = axes.tolist()
             perm = trans.get_attr_value("perm")
             axes = [perm[axes[i]] for i in range(len(axes))]
-            # axes node might be shared
+            # axes node might be shared, also with another input of this node
             new_axes = np.array(axes, dtype=dtype)
-            if self._nodes_has_single_consumer_node([node.inputs[3]]):
+            if self._nodes_has_single_consumer_node([node.inputs[3]]) and node.input[:].count(node.input[3]) == 1:
                 node.inputs[3].set_tensor_value(new_axes)
             else:
                 new_axes_const = self._g.make_const(
-- 
2.43.0


From 7f5a2c25a2a0fd530f554f6864518b08ec836dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:49 +0000
Subject: [PATCH 020/123] fix: transpose over per channel quantization handles
 the default axis

---
 tf2onnx/optimizer/transpose_optimizer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tf2onnx/optimizer/transpose_optimizer.py b/tf2onnx/optimizer/transpose_optimizer.py
index a2d23e0..e3541fb 100644
--- a/tf2onnx/optimizer/transpose_optimizer.py
+++ b/tf2onnx/optimizer/transpose_optimizer.py
@@ -1043,9 +1043,10 @@ class TransposeOptimizer(GraphOptimizerBase):
                 return False
         if not self._switch_transpose_and_node(node, trans):
             return False
-        if 'axis' in node.attr:
+        per_axis = self._g.opset >= 13 and self._g.get_shape(node.input[1]) not in [[], [1]]
+        if 'axis' in node.attr or per_axis:
             perm = trans.get_attr_value("perm")
-            axis = node.get_attr_value("axis")
+            axis = node.get_attr_value("axis", 1)
             new_axis = perm[axis]
             node.set_attr("axis", new_axis)
         return True
-- 
2.43.0


From 868cbf31125ed7c09624d2840c84e8dd3f845848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:49 +0000
Subject: [PATCH 021/123] fix: transpose over Shape honours start and end and a
 scalar input

---
 tf2onnx/optimizer/transpose_optimizer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tf2onnx/optimizer/transpose_optimizer.py b/tf2onnx/optimizer/transpose_optimizer.py
index e3541fb..f4f5cb1 100644
--- a/tf2onnx/optimizer/transpose_optimizer.py
+++ b/tf2onnx/optimizer/transpose_optimizer.py
@@ -1058,13 +1058,15 @@ class TransposeOptimizer(GraphOptimizerBase):
         # input > trans > shape  can be changed into  input > shape > gather
         if not self._nodes_has_single_consumer_node([trans]):
             return False
+        if "start" in node.attr or "end" in node.attr:
+            return False
 
         output_shape = self._g.get_shape(node.output[0])
         output_dtype = self._g.get_dtype(node.output[0])
         self._g.remove_node(trans.name)
         self._g.remove_node(node.name)
         shape_node = self._g.make_node("Shape", [trans.input[0]])
-        const_node = self._g.make_const(utils.make_name("Const"), np.array(trans.get_attr("perm").ints))
+        const_node = self._g.make_const(utils.make_name("Const"), np.array(trans.get_attr("perm").ints, dtype=np.int64))
         gather_node = self._g.make_node("Gather", [shape_node.output[0], const_node.output[0]], outputs=node.output)
         self._g.set_shape(gather_node.output[0], output_shape)
         self._g.set_dtype(gather_node.output[0], output_dtype)
-- 
2.43.0


From 70f4a602cdb5c1ca2638009e90107c15575ac78b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:03 +0000
Subject: [PATCH 022/123] fix: reshape optimizer honours start and end of Shape

---
 tf2onnx/optimizer/reshape_optimizer.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/tf2onnx/optimizer/reshape_optimizer.py b/tf2onnx/optimizer/reshape_optimizer.py
index e655db6..72d415d 100644
--- a/tf2onnx/optimizer/reshape_optimizer.py
+++ b/tf2onnx/optimizer/reshape_optimizer.py
@@ -48,16 +48,19 @@ class ReshapeOptimizer(GraphOptimizerBase):
             # The rank must be known
             return False
         feed_dict = {}
+        symbolic_inp_shape = []
+        for i, d in enumerate(inp_shape):
+            if d == -1:
+                # Make a variable representing each unknown dim
+                symbolic_inp_shape.append(SymbolicTensorElement.from_variable(i))
+            else:
+                symbolic_inp_shape.append(SymbolicTensorElement.from_const(d))
         for n in graph.find_output_consumers(node.input[0]):
             if n.type == "Shape":
-                symbolic_shape = []
-                for i, d in enumerate(inp_shape):
-                    if d == -1:
-                        # Make a variable representing each unknown dim
-                        symbolic_shape.append(SymbolicTensorElement.from_variable(i))
-                    else:
-                        symbolic_shape.append(SymbolicTensorElement.from_const(d))
-                feed_dict[n.output[0]] = np.array(symbolic_shape, object)
+                # Since opset 15 Shape can return only a part of the dims
+                start = n.get_attr_value("start", 0)
+                end = n.get_attr_value("end", None)
+                feed_dict[n.output[0]] = np.array(symbolic_inp_shape[start:end], object)
         try:
             symbolic_res = SymbolicExecutor(graph).compute_outputs([node.input[1]], feed_dict)
         except SymbolicExecutionException:
-- 
2.43.0


From de1cc72da9cb78482df75d1304b92b5b16a2b0ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:03 +0000
Subject: [PATCH 023/123] fix: reshape optimizer honours zeros in a computed
 target, and checks for mismatches and unknown shapes before it edits the
 graph

---
 tf2onnx/optimizer/reshape_optimizer.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/tf2onnx/optimizer/reshape_optimizer.py b/tf2onnx/optimizer/reshape_optimizer.py
index 72d415d..476a64f 100644
--- a/tf2onnx/optimizer/reshape_optimizer.py
+++ b/tf2onnx/optimizer/reshape_optimizer.py
@@ -67,6 +67,12 @@ class ReshapeOptimizer(GraphOptimizerBase):
             return False
         utils.make_sure(len(symbolic_res[0].shape) == 1, "Shape must have rank 1")
         symbolic_shape = symbolic_res[0].tolist()
+        for i, val in enumerate(symbolic_shape):
+            if val.is_const() and val.constant == 0:
+                # The computed target already has a 0. It copies a dim unless allowzero is set.
+                if node.get_attr_value("allowzero", 0) or i >= len(inp_shape):
+                    return False
+                symbolic_shape[i] = symbolic_inp_shape[i]
         product_cnt = len([val for val in symbolic_shape if val.has_multiple_terms()])
         idx_cnt = len([val for val in symbolic_shape if val.is_single_var()])
         if product_cnt > 1:
@@ -96,6 +102,9 @@ class ReshapeOptimizer(GraphOptimizerBase):
             new_shape = [get_reshape_dim(v, i, shift) for i, v in enumerate(symbolic_shape)]
         if new_shape.count(-1) > 1:
             return False
+        if inp_shape == [-1] and len(new_shape) > 1:
+            # This is a mismatch.
+            return False
         if shift > 0 and node.output[0] in graph.outputs:
             # The squeeze can't be inserted after a graph output
             return False
@@ -106,12 +115,14 @@ class ReshapeOptimizer(GraphOptimizerBase):
             squeeze_node = GraphBuilder(graph).make_squeeze(
                 {'data': node.output[0], 'axes': list(range(shift))},
                 return_node=True, shapes=node.output_shapes, dtypes=node.output_dtypes)
-            new_reshape_shape = [1] * shift + graph.get_shape(node.output[0])
+            out_shape = graph.get_shape(node.output[0])
+            if out_shape is not None:
+                new_reshape_shape = [1] * shift + out_shape
             graph.insert_node_on_output(squeeze_node, node.output[0])
+        if node.get_attr("allowzero"):
+            # Zeros in the new target copy a dim
+            del node.attr["allowzero"]
         const_shape = graph.make_const(utils.make_name(node.name + "_shape"), np.array(new_shape, np.int64)).output[0]
-        if inp_shape == [-1] and len(new_shape) > 1:
-            # This is a mismatch.
-            return False
         if new_reshape_shape is not None:
             graph.set_shape(node.output[0], new_reshape_shape)
         graph.replace_inputs(node, [node.input[0], const_shape])
-- 
2.43.0


From 0f74c0725b72d249b17b4cb9bc70626233f9e814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:03 +0000
Subject: [PATCH 024/123] fix: symbolic executor handles negative squeeze axes

---
 tf2onnx/symbolic_executor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tf2onnx/symbolic_executor.py b/tf2onnx/symbolic_executor.py
index 258dbfb..611e498 100644
--- a/tf2onnx/symbolic_executor.py
+++ b/tf2onnx/symbolic_executor.py
@@ -202,7 +202,7 @@ class SymbolicExecutor:
         return shape_out
 
     def compute_squeeze_shape(self, shape_in, axes):
-        axes = [i if i >= 0 else i + len(axes) for i in axes]
+        axes = [i if i >= 0 else i + len(shape_in) for i in axes]
         shape_out = []
         for ind, val in enumerate(shape_in):
             if ind not in axes:
-- 
2.43.0


From 2e3f05cbe3ee254f52b8ed77cc87c922a8711c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:03 +0000
Subject: [PATCH 025/123] fix: symbolic executor does not fold a cast of a
 fraction of a dim

---
 tf2onnx/symbolic_executor.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tf2onnx/symbolic_executor.py b/tf2onnx/symbolic_executor.py
index 611e498..58de70b 100644
--- a/tf2onnx/symbolic_executor.py
+++ b/tf2onnx/symbolic_executor.py
@@ -137,6 +137,8 @@ class SymbolicExecutor:
     def compute_cast(self, node, feed_dict):
         inp = feed_dict[node.input[0]]
         if inp.dtype == object:
+            if any(SymbolicTensorElement.from_value(val).constant % 1 != 0 for val in inp.flatten()):
+                raise SymbolicExecutionException("Cast of a fraction of a dim")
             return [inp]
         np_dtype = utils.ONNX_TO_NUMPY_DTYPE[node.get_attr("to").i]
         return [inp.astype(np_dtype)]
-- 
2.43.0


From ee02ce20290575c065cb0ed6c0f01ec243c88edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:03 +0000
Subject: [PATCH 026/123] fix: symbolic executor handles an empty result

---
 tf2onnx/symbolic_executor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tf2onnx/symbolic_executor.py b/tf2onnx/symbolic_executor.py
index 58de70b..ba4833b 100644
--- a/tf2onnx/symbolic_executor.py
+++ b/tf2onnx/symbolic_executor.py
@@ -69,7 +69,7 @@ class SymbolicTensorElement:
 
     @staticmethod
     def np_array(np_array):
-        return np.vectorize(SymbolicTensorElement.from_value)(np_array)
+        return np.vectorize(SymbolicTensorElement.from_value, otypes=[object])(np_array)
 
 class SymbolicExecutionException(Exception):
     pass
-- 
2.43.0


From 661b751c0b74e18cfc5ec65dcb81de4a48da6bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:13 +0000
Subject: [PATCH 027/123] fix: const dequantize optimizer handles graph
 outputs, the default axis, a const that is also its zero point, and updates
 the shape

---
 tf2onnx/optimizer/const_dequantize_optimizer.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/tf2onnx/optimizer/const_dequantize_optimizer.py b/tf2onnx/optimizer/const_dequantize_optimizer.py
index 5fbfccc..0e8f793 100644
--- a/tf2onnx/optimizer/const_dequantize_optimizer.py
+++ b/tf2onnx/optimizer/const_dequantize_optimizer.py
@@ -43,11 +43,13 @@ class ConstDequantizeOptimizer(GraphOptimizerBase):
             return False
         if not self._all_inputs_are_const(node.inputs[1:]) or self._is_graph_output(node, graph):
             return False
+        if self._is_graph_output(dequant_node, graph):
+            return False
         if not self._all_inputs_are_const(dequant_node.inputs):
             return False
         if len(dequant_node.inputs[1].get_tensor_value(as_list=False).flatten()) != 1:
             # If using per-channel quantization, we must compute the new axis
-            old_axis = dequant_node.get_attr_value("axis")
+            old_axis = dequant_node.get_attr_value("axis", 1)
             input_shape = dequant_node.inputs[0].get_tensor_value(as_list=False).shape
             new_axis = self.compute_new_axis(node, graph, old_axis, input_shape)
             if new_axis is None:
@@ -58,10 +60,12 @@ class ConstDequantizeOptimizer(GraphOptimizerBase):
         graph.replace_all_inputs(node.output[0], dequant_node.output[0])
         graph.remove_node(node.name)
         dequant_const = dequant_node.inputs[0]
-        if len(graph.find_output_consumers(dequant_const.output[0])) > 1:
+        if len(graph.find_output_consumers(dequant_const.output[0])) > 1 \
+                or dequant_node.input.count(dequant_const.output[0]) > 1:
             dequant_const = graph.copy_const(dequant_const)
             graph.replace_input(dequant_node, dequant_node.input[0], dequant_const.output[0], 0)
         dequant_const.set_tensor_value(const_outputs[0])
+        graph.set_shape(dequant_node.output[0], const_outputs[0].shape)
         return True
 
     @staticmethod
-- 
2.43.0


From 3e4df21e9dc02fa1b67484db675a4e3779c60c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:13 +0000
Subject: [PATCH 028/123] fix: folding a constant reshape with allowzero keeps
 zeros

---
 tf2onnx/optimizer/const_fold_optimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tf2onnx/optimizer/const_fold_optimizer.py b/tf2onnx/optimizer/const_fold_optimizer.py
index 95ce07b..e98f543 100644
--- a/tf2onnx/optimizer/const_fold_optimizer.py
+++ b/tf2onnx/optimizer/const_fold_optimizer.py
@@ -123,7 +123,7 @@ class ConstFoldOptimizer(GraphOptimizerBase):
         const_val_shape = node.inputs[1].get_tensor_value(as_list=True)
         data_shape = const_val_data.shape
         for i, dim in enumerate(const_val_shape):
-            if dim == 0:
+            if dim == 0 and not node.get_attr_value("allowzero", 0):
                 # In ORT a dim of 0 means the shape stays the same.
                 const_val_shape[i] = data_shape[i]
         const_val_after_trans = const_val_data.reshape(const_val_shape)
-- 
2.43.0


From 09db15fd5e5280a9e36f706da9e84a1455d31771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:13 +0000
Subject: [PATCH 029/123] fix: transposes of empty tensors are not replaced by
 a reshape

---
 tf2onnx/optimizer/transpose_optimizer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tf2onnx/optimizer/transpose_optimizer.py b/tf2onnx/optimizer/transpose_optimizer.py
index f4f5cb1..ed00f25 100644
--- a/tf2onnx/optimizer/transpose_optimizer.py
+++ b/tf2onnx/optimizer/transpose_optimizer.py
@@ -92,6 +92,9 @@ class TransposeOptimizer(GraphOptimizerBase):
     def post_optimize_action(self):
         def _calculate_new_shape(graph, op):
             input_shape = graph.get_shape(op.input[0])
+            if 0 in input_shape:
+                # a 0 in the target of a reshape means something else
+                return None
             tagged_shape = [d if d == 1 else "var" + str(i) for i, d in enumerate(input_shape)]
             trim_shape = [d for d in tagged_shape if d != 1]
 
-- 
2.43.0


From 857b4a7705ff083c6e3a9c25a4eafc66934a1ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:36 +0000
Subject: [PATCH 030/123] fix: consumers of a tensor in bodies are found no
 matter when the body was attached

---
 tf2onnx/graph.py | 48 ++++++++++++++++++------------------------------
 1 file changed, 18 insertions(+), 30 deletions(-)

diff --git a/tf2onnx/graph.py b/tf2onnx/graph.py
index 6af9dd0..02edc45 100644
--- a/tf2onnx/graph.py
+++ b/tf2onnx/graph.py
@@ -458,7 +458,6 @@ class Graph(object):
         self._nodes_by_name = {}
         self._output_to_node_name = {}
         self._output_to_consumers = {}
-        self._input_to_graph = {}
         self.shapes = {}
         self.graph_name = graph_name or utils.make_name("tf2onnx")
         self._is_subgraph = is_subgraph
@@ -1396,35 +1395,25 @@ class Graph(object):
                 nodes.append(node)
 
         # find consumers in sub graphs
-        if output_name in self._input_to_graph:
-            for g in self._input_to_graph[output_name].values():
-                nodes.extend(g.find_output_consumers(output_name))
+        for g in self._body_graphs_seeing(output_name):
+            nodes.extend(g.find_output_consumers(output_name))
         return nodes
 
-    def _register_input_name(self, input_name, node, only_graph=False):
+    def _register_input_name(self, input_name, node):
         "Register node taking a specific input."
-        if not only_graph:
-            if input_name not in self._output_to_consumers:
-                self._output_to_consumers[input_name] = set()
-            self._output_to_consumers[input_name].add(node.name)
-        if self.parent_graph is not None:
-            if input_name not in self.parent_graph._input_to_graph:
-                self.parent_graph._input_to_graph[input_name] = {}
-            self.parent_graph._input_to_graph[input_name][id(self)] = self
-            self.parent_graph._register_input_name(input_name, node, only_graph=True)
-
-    def _unregister_input_name(self, input_name, node, only_graph=False):
+        if input_name not in self._output_to_consumers:
+            self._output_to_consumers[input_name] = set()
+        self._output_to_consumers[input_name].add(node.name)
+
+    def _unregister_input_name(self, input_name, node):
         "Unregister node taking a specific input."
-        node_name = node.name
-        if not only_graph:
-            if input_name in self._output_to_consumers[input_name]:
-                if node_name in self._output_to_consumers[input_name]:
-                    self._output_to_consumers[input_name].remove(node_name)
-        if (self.parent_graph is not None and
-                input_name in self.parent_graph._input_to_graph and
-                id(self) in self.parent_graph._input_to_graph[input_name]):
-            del self.parent_graph._input_to_graph[input_name][id(self)]
-            self.parent_graph._unregister_input_name(input_name, node, only_graph=True)
+        if input_name in self._output_to_consumers:
+            self._output_to_consumers[input_name].discard(node.name)
+
+    def _body_graphs_seeing(self, tensor_name):
+        "The bodies of the nodes of this graph, except the ones which have an own tensor of that name."
+        return [g for bodies in self.contained_graphs.values() for g in bodies.values()
+                if tensor_name not in g._output_to_node_name]  # pylint: disable=protected-access
 
     def replace_all_inputs(self, old_input, new_input, ops=None):
         """
@@ -1459,10 +1448,9 @@ class Graph(object):
                     self.replace_input(node, node.input[i], new_input, i)
 
         # modify references in sub graphs
-        if old_input in self._input_to_graph:
-            for g in self._input_to_graph[old_input].values():
-                g.replace_all_inputs(old_input, new_input,
-                                     ops=g.get_nodes() if keep_ops else None)
+        for g in self._body_graphs_seeing(old_input):
+            g.replace_all_inputs(old_input, new_input,
+                                 ops=g.get_nodes() if keep_ops else None)
 
     def replace_input(self, node, old_input, new_input, input_index=None):
         """
-- 
2.43.0


From 47d08e718a2da94cd343cbccbd68235fe5bbdfae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:36 +0000
Subject: [PATCH 031/123] fix: back to back optimizer only drops a cast that
 keeps all values

---
 tf2onnx/optimizer/back_to_back_optimizer.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/tf2onnx/optimizer/back_to_back_optimizer.py b/tf2onnx/optimizer/back_to_back_optimizer.py
index 4e9fec2..8c9c1b6 100644
--- a/tf2onnx/optimizer/back_to_back_optimizer.py
+++ b/tf2onnx/optimizer/back_to_back_optimizer.py
@@ -7,7 +7,7 @@
 
 import numpy as np
 
-from tf2onnx.utils import ONNX_DTYPE_NAMES  # lgtm[py/unsafe-cyclic-import]
+from tf2onnx.utils import ONNX_DTYPE_NAMES, ONNX_TO_NUMPY_DTYPE  # lgtm[py/unsafe-cyclic-import]
 
 from .optimizer_base import GraphOptimizerBase  # lgtm[py/unsafe-cyclic-import]
 
@@ -98,7 +98,11 @@ class BackToBackOptimizer(GraphOptimizerBase):
             type2 = node2.get_attr('to').i
             type2_name = ONNX_DTYPE_NAMES[type2] if type2 in ONNX_DTYPE_NAMES else ''
 
-            if 'float' in type1_name or type1_name == 'double':
+            if type1 != type2 and type1_name != 'string' and \
+                    not BackToBackOptimizer._cast_keeps_values(g.get_dtype(node.input[0]), type1):
+                # the current node changes the values, e.g. it rounds them
+                can_reduce = False
+            elif 'float' in type1_name or type1_name == 'double':
                 # high information type. ok to eliminate
                 pass
             elif 'int' in type1_name:
@@ -125,6 +129,17 @@ class BackToBackOptimizer(GraphOptimizerBase):
             g.remove_node(node.name)
         return q2
 
+    @staticmethod
+    def _cast_keeps_values(from_type, to_type):
+        """True if values of from_type can be represented in to_type"""
+        if from_type not in ONNX_TO_NUMPY_DTYPE or to_type not in ONNX_TO_NUMPY_DTYPE:
+            return False
+        from_np, to_np = ONNX_TO_NUMPY_DTYPE[from_type], ONNX_TO_NUMPY_DTYPE[to_type]
+        if np.issubdtype(from_np, np.integer) and to_np in [np.float32, np.float64]:
+            # very large values are rounded
+            return True
+        return np.can_cast(from_np, to_np)
+
     @staticmethod
     @_register_func("Transpose")
     def _optimize_transpose(g, node, consumer_nodes):
-- 
2.43.0


From 8f21198e00b79e2c896397901359a720e33f689e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:36 +0000
Subject: [PATCH 032/123] fix: merging duplicated nodes leaves random nodes and
 nodes with bodies, and respects domains, omitted outputs and the sign of zero

---
 .../merge_duplicated_nodes_optimizer.py         | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/tf2onnx/optimizer/merge_duplicated_nodes_optimizer.py b/tf2onnx/optimizer/merge_duplicated_nodes_optimizer.py
index 8d876ce..70e2685 100644
--- a/tf2onnx/optimizer/merge_duplicated_nodes_optimizer.py
+++ b/tf2onnx/optimizer/merge_duplicated_nodes_optimizer.py
@@ -57,7 +57,7 @@ class MergeDuplicatedNodesOptimizer(GraphOptimizerBase):
             if node.is_const():
                 # Many constants have the same size so this is helpful
                 tensor_data_hash = hash(node.attr['value'].t.raw_data)
-            res[(node.type, tuple(node.input), tensor_data_hash)].append(node)
+            res[(node.type, node.domain, tuple(node.input), tensor_data_hash)].append(node)
         return res
 
     def _del_nodes_if_duplicated(self, nodes_group, graph):
@@ -88,8 +88,9 @@ class MergeDuplicatedNodesOptimizer(GraphOptimizerBase):
                 return False
             const_1 = node_1.get_tensor_value(as_list=False)
             const_2 = node_2.get_tensor_value(as_list=False)
+            # equal values can have a different sign of zero
             if const_1.dtype == const_2.dtype and \
-                    np.array_equal(const_1, const_2):
+                    np.array_equal(const_1, const_2) and np.array_equal(np.signbit(const_1), np.signbit(const_2)):
                 return True
         return False
 
@@ -101,7 +102,12 @@ class MergeDuplicatedNodesOptimizer(GraphOptimizerBase):
             # if one of the output is graph's output then it can't be deleted
             if set(node_to_delete.output).intersection(set(graph.outputs)):
                 continue
+            # optional outputs can be omitted with an empty name
+            if any(old and not new for old, new in zip(node_to_delete.output, node_to_retain.output)):
+                continue
             for old_input, new_input in zip(node_to_delete.output, node_to_retain.output):
+                if not old_input:
+                    continue
                 graph.replace_all_inputs(old_input, new_input)
             graph.remove_node(node_to_delete.name)
             self._graph_can_be_optimized = True
@@ -113,6 +119,13 @@ class MergeDuplicatedNodesOptimizer(GraphOptimizerBase):
             return True
         if node.is_graph_input():
             return True
+        # each of these nodes produces its own random values
+        if node.type in ["RandomUniform", "RandomUniformLike", "RandomNormal", "RandomNormalLike", "Multinomial",
+                         "Bernoulli", "Dropout"]:
+            return True
+        # the bodies of the nodes are not compared
+        if node.get_body_graphs():
+            return True
         return False
 
     @staticmethod
-- 
2.43.0


From 4c7b2b4bf97c1a8710bd1d452dd78a599aac0791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:45 +0000
Subject: [PATCH 033/123] fix: q_dq optimizer removes the quantize nodes it has
 moved up (endless loop)

---
 tf2onnx/optimizer/q_dq_optimizer.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/tf2onnx/optimizer/q_dq_optimizer.py b/tf2onnx/optimizer/q_dq_optimizer.py
index e368af8..acd5105 100644
--- a/tf2onnx/optimizer/q_dq_optimizer.py
+++ b/tf2onnx/optimizer/q_dq_optimizer.py
@@ -25,6 +25,9 @@ class QDQOptimizer(GraphOptimizerBase):
             graph_changed = False
             ops = graph.get_nodes()
             for op in ops:
+                if graph.get_node_by_name(op.name) is not op:
+                    # was removed
+                    continue
                 if op.type == "QuantizeLinear" and self._optimize_quantize(op, graph):
                     graph_changed = True
                     self.graph_been_opt = True
@@ -71,11 +74,13 @@ class QDQOptimizer(GraphOptimizerBase):
             inp_q = self.make_q_or_dq(graph, "QuantizeLinear", node.input[i], quant_node, node.name)
             graph.replace_input(node, node.input[i], inp_q.output[0], i)
 
+        quant_dtype = graph.get_dtype(quant_node.output[0])
         for i in out_indices:
-            graph.copy_dtype(quant_node.output[0], node.output[i])
+            graph.set_dtype(node.output[i], quant_dtype)
             consumers = graph.find_output_consumers(node.output[i])
             for c in consumers:
                 graph.replace_all_inputs(c.output[0], node.output[i])
+                graph.remove_node(c.name)
 
         return True
 
-- 
2.43.0


From 290aa00d81823f0c0c9f87dc59faf8eeb8524008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:45 +0000
Subject: [PATCH 034/123] fix: q_dq optimizer does not move nodes into or out
 of nested bodies

---
 tf2onnx/optimizer/q_dq_optimizer.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/tf2onnx/optimizer/q_dq_optimizer.py b/tf2onnx/optimizer/q_dq_optimizer.py
index acd5105..307fcc8 100644
--- a/tf2onnx/optimizer/q_dq_optimizer.py
+++ b/tf2onnx/optimizer/q_dq_optimizer.py
@@ -55,7 +55,7 @@ class QDQOptimizer(GraphOptimizerBase):
 
         # Push quantize nodes up
         tensor_idx = is_tensor_op(graph, node)
-        if tensor_idx is None:
+        if tensor_idx is None or node.graph is not graph:
             return False
         inp_indices, out_indices = tensor_idx
         for i in out_indices:
@@ -63,7 +63,7 @@ class QDQOptimizer(GraphOptimizerBase):
             if node.output[i] in graph.outputs:
                 return False
             for c in consumers:
-                if c.type != "QuantizeLinear":
+                if c.type != "QuantizeLinear" or c.graph is not graph:
                     return False
                 if not self.has_same_quantization_params(c, quant_node):
                     return False
@@ -96,7 +96,8 @@ class QDQOptimizer(GraphOptimizerBase):
 
     def _optimize_dequantize_and_node(self, dequant_node, node, graph):
         tensor_idx = is_tensor_op(graph, node)
-        if tensor_idx is None:
+        if tensor_idx is None or node.graph is not graph:
+            # a node in a nested body may use the output of a dequantize node too
             return False
         inp_indices, out_indices = tensor_idx
         for i in inp_indices:
-- 
2.43.0


From 7b1fa5ab3bfa26762855eedb19c4c5982af68241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:45 +0000
Subject: [PATCH 035/123] fix: q_dq optimizer compares the element types of
 nodes without a zero point

---
 tf2onnx/optimizer/q_dq_optimizer.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/tf2onnx/optimizer/q_dq_optimizer.py b/tf2onnx/optimizer/q_dq_optimizer.py
index 307fcc8..1d63eb6 100644
--- a/tf2onnx/optimizer/q_dq_optimizer.py
+++ b/tf2onnx/optimizer/q_dq_optimizer.py
@@ -6,6 +6,7 @@
    Does not work for per-channel quantization yet
 """
 
+from onnx import TensorProto
 from .optimizer_base import GraphOptimizerBase
 
 # pylint: disable=logging-not-lazy,unused-argument,missing-docstring
@@ -130,9 +131,17 @@ class QDQOptimizer(GraphOptimizerBase):
     def has_same_quantization_params(self, node1, node2):
         if node1.get_attr_value("axis") != node2.get_attr_value("axis"):
             return False
+        if len(node1.input) < 3 and self.quantized_dtype(node1) != self.quantized_dtype(node2):
+            return False
         # Constant merging will ensure these are the same nodes if they are equal
         return node1.input[1:] == node2.input[1:]
 
+    def quantized_dtype(self, node):
+        """Element type of the quantized side of a QuantizeLinear or DequantizeLinear without zero point"""
+        if node.type == "QuantizeLinear":
+            return TensorProto.UINT8
+        return node.graph.get_dtype(node.input[0])
+
     def make_q_or_dq(self, graph, op_type, inp, reference_node, name_scope):
         """Makes a QuantizeLinear or DequantizeLinear with quantization params copied from the reference_node"""
         axis = reference_node.get_attr_value("axis")
-- 
2.43.0


From 8f3849b67cd64c8884bc6c986e1fa913c75e2ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:45 +0000
Subject: [PATCH 036/123] fix: q_dq optimizer leaves scatters with a reduction

---
 tf2onnx/optimizer/q_dq_optimizer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tf2onnx/optimizer/q_dq_optimizer.py b/tf2onnx/optimizer/q_dq_optimizer.py
index 1d63eb6..a327ba9 100644
--- a/tf2onnx/optimizer/q_dq_optimizer.py
+++ b/tf2onnx/optimizer/q_dq_optimizer.py
@@ -163,6 +163,8 @@ def is_tensor_op(g, node):
         # Output depends on data if indices is unchanged
         return ([0], [0])
     if node.type in ["Scatter", "ScatterND", "ScatterElements"]:
+        if node.get_attr_value("reduction", b"none") not in [b"none", "none"]:
+            return None
         # Output depends on data and updates if indices is unchanged
         return ([0, 2], [0])
     if node.type == "Concat":
-- 
2.43.0


From 036a06d77b5421bd2adf46a6b84ebcf529bffce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:04 +0000
Subject: [PATCH 037/123] fix: renaming tensors also renames them in nested
 bodies, and loses no consumer

---
 tf2onnx/graph.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/tf2onnx/graph.py b/tf2onnx/graph.py
index 02edc45..7811357 100644
--- a/tf2onnx/graph.py
+++ b/tf2onnx/graph.py
@@ -894,22 +894,30 @@ class Graph(object):
             return {tensors_to_rename.get(k, k): v for k, v in d.items()}
 
         self._output_to_node_name = rename_keys(self._output_to_node_name)
-        self._output_to_consumers = rename_keys(self._output_to_consumers)
+        self._output_to_consumers = {}
         self._dtypes = rename_keys(self._dtypes)
         self._output_shapes = rename_keys(self._output_shapes)
         self.outputs = rename_list(self.outputs)
         for node in self._nodes:
             node._input = rename_list(node._input)
             node._output = rename_list(node._output)
+            for name in node._input:
+                self._register_input_name(name, node)
+        # nested bodies may use the tensors too
+        for bodies in self.contained_graphs.values():
+            for g in bodies.values():
+                g.rename_tensors({k: v for k, v in tensors_to_rename.items() if k not in g._output_to_node_name})
 
     def change_node_name(self, node, new_name):
         """Remove node in current graph."""
         utils.make_sure(new_name not in self._nodes_by_name, "node %s not unique ", new_name)
         dtypes = node.output_dtypes
         shapes = node.output_shapes
+        body_graphs = node.get_body_graphs()
         self.remove_node(node.name)
-        new_node = self.make_node(node.type, node.input, output_count=len(node.output),
-                                  attr=node.attr, dtypes=dtypes, shapes=shapes, name=new_name)
+        new_node = self.make_node(node.type, node.input, output_count=len(node.output), attr=node.attr, dtypes=dtypes,
+                                  shapes=shapes, name=new_name, skip_conversion=node.skip_conversion,
+                                  domain=node.domain, branches=body_graphs)
         for i, old_output in enumerate(node.output):
             new_output = port_name(new_name, i)
             for j, k in enumerate(self.outputs):
-- 
2.43.0


From a1941a4d3670a9e88517311d907a6c4f6e63e6c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:04 +0000
Subject: [PATCH 038/123] fix: a node that takes a tensor twice stays its
 consumer when one of the inputs is replaced or removed

---
 tf2onnx/graph.py | 20 ++++++--------------
 1 file changed, 6 insertions(+), 14 deletions(-)

diff --git a/tf2onnx/graph.py b/tf2onnx/graph.py
index 7811357..b870a2b 100644
--- a/tf2onnx/graph.py
+++ b/tf2onnx/graph.py
@@ -1296,11 +1296,9 @@ class Graph(object):
         assert isinstance(node, Node) and isinstance(to_be_removed, str)
         if input_index is not None:
             assert node.input[input_index] == to_be_removed
-            if node.input[input_index] in self._output_to_consumers:
-                to_ops = self._output_to_consumers[node.input[input_index]]
-                if node.name in to_ops:
-                    to_ops.remove(node.name)
             del node.input[input_index]
+            if to_be_removed not in node.input:
+                self._unregister_input_name(to_be_removed, node)
             return
 
         for i, name in enumerate(node.input):
@@ -1479,11 +1477,9 @@ class Graph(object):
         else:
             raise RuntimeError("Unable to replace input %r into %r for node %r." % (old_input, new_input, node.name))
 
-        to_ops = self._output_to_consumers.get(old_input, None)
-        if to_ops is not None:
-            if node.name in to_ops:
-                # A node may take twice the same entry.
-                to_ops.remove(node.name)
+        if old_input not in node.input:
+            # A node may take twice the same entry.
+            self._unregister_input_name(old_input, node)
 
         self._register_input_name(new_input, node)
         return is_replaced
@@ -1493,11 +1489,7 @@ class Graph(object):
         assert isinstance(node, Node) and isinstance(new_inputs, list)
 
         for old_input in node.input:
-            to_ops = self._output_to_consumers.get(old_input, None)
-            if to_ops is not None and old_input in to_ops:
-                # To avoid issues when a node
-                # takes twice the same entry.
-                to_ops.remove(old_input)
+            self._unregister_input_name(old_input, node)
 
         for input_name in new_inputs:
             assert isinstance(input_name, str)
-- 
2.43.0


From 0300646b2e052810dfb3297177bc472cf5ce442c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:04 +0000
Subject: [PATCH 039/123] fix: inserting a node on an output without consumers

---
 tf2onnx/graph.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tf2onnx/graph.py b/tf2onnx/graph.py
index b870a2b..78980c0 100644
--- a/tf2onnx/graph.py
+++ b/tf2onnx/graph.py
@@ -1353,8 +1353,8 @@ class Graph(object):
             output_name = node.input[0]
         new_output = node.output[0]
 
-        to_replace = [self.get_node_by_name(n) for n in self._output_to_consumers[output_name]]
-        to_replace = [n for n in to_replace if n != node]
+        to_replace = [self.get_node_by_name(n) for n in self._output_to_consumers.get(output_name, [])]
+        to_replace = [n for n in to_replace if n is not None and n != node]
         self.replace_all_inputs(output_name, new_output, ops=to_replace)
         return node
 
-- 
2.43.0


From a0d2f94ecf1ae2f486d3496a47b91b91ea396d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:04 +0000
Subject: [PATCH 040/123] fix: a rejected replace_all_inputs leaves the graph
 unchanged

---
 tf2onnx/graph.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tf2onnx/graph.py b/tf2onnx/graph.py
index 78980c0..f245f1f 100644
--- a/tf2onnx/graph.py
+++ b/tf2onnx/graph.py
@@ -1447,6 +1447,8 @@ class Graph(object):
             assert node is not None
             if old_input in node.input and new_input in node.output:
                 raise RuntimeError("creating a circle in the graph is not allowed: " + node.name)
+
+        for node in ops:
             self._register_input_name(new_input, node)
 
             for i, input_name in enumerate(node.input):
-- 
2.43.0


From c166adf5328bc5c07bfd87d88c0a41453a356a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:04 +0000
Subject: [PATCH 041/123] fix: pruning removes nodes only unused nodes of
 bodies depend on

---
 tf2onnx/graph.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/tf2onnx/graph.py b/tf2onnx/graph.py
index f245f1f..83788c4 100644
--- a/tf2onnx/graph.py
+++ b/tf2onnx/graph.py
@@ -1562,14 +1562,16 @@ class Graph(object):
             logger.debug("Outputs not specified, delete_unused_nodes not taking effect.")
             return
 
-        # we need keep those placeholders that are used as input of Loop's body graph.
-        # some of them are not used in the graph, but still need be there to keep the graph complete.
-        related_nodes = self.extract_sub_graph_nodes(outputs_name, remove_unused_inputs=False)
-        for node in related_nodes:
+        # bodies first, what only their unused nodes take from this graph is not needed
+        for node in self.get_nodes():
             attr_body_graphs = node.get_body_graphs()
             if attr_body_graphs:
                 for body_graph in attr_body_graphs.values():
                     body_graph.delete_unused_nodes(body_graph.outputs)
+
+        # we need keep those placeholders that are used as input of Loop's body graph.
+        # some of them are not used in the graph, but still need be there to keep the graph complete.
+        related_nodes = self.extract_sub_graph_nodes(outputs_name, remove_unused_inputs=False)
         self.reset_nodes(related_nodes)
 
     def safe_to_remove_nodes(self, to_delete):
-- 
2.43.0


From 85d5fbf482def43fc7e429b2a940411b5f8938f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:04 +0000
Subject: [PATCH 042/123] fix: safe_remove_nodes does not depend on the order
 of removal

---
 tf2onnx/graph.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/tf2onnx/graph.py b/tf2onnx/graph.py
index 83788c4..d669c48 100644
--- a/tf2onnx/graph.py
+++ b/tf2onnx/graph.py
@@ -1589,13 +1589,9 @@ class Graph(object):
     # TODO(tomwildenhain): Remove this function
     def safe_remove_nodes(self, to_delete):
         """Delete nodes in `to_delete` without third-party node consuming it."""
-        delete_set = set(to_delete)
-        for n in delete_set:
-            out_consumers = set()
-            for out in n.output:
-                out_consumers |= set(self.find_output_consumers(out))
-            if out_consumers.issubset(delete_set):
-                self.remove_node(n.name)
+        # removing one node must not change what is found for the next one
+        for n in self.safe_to_remove_nodes(to_delete):
+            self.remove_node(n.name)
 
     def is_safe_to_remove_nodes(self, to_delete, outputs_to_ignore=None):
         """Returns true if the outputs of all the nodes in to_delete have no third-party nodes consuming them."""
-- 
2.43.0


From df4943692cbd097211587e7285465840314017c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:18 +0000
Subject: [PATCH 043/123] fix: setting the value of a constant whose tensor has
 another name failed

---
 tf2onnx/graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tf2onnx/graph.py b/tf2onnx/graph.py
index d669c48..8a454be 100644
--- a/tf2onnx/graph.py
+++ b/tf2onnx/graph.py
@@ -350,7 +350,7 @@ class Node(object):
         self.set_attr("value", onnx_tensor)
         # track shapes in _output_shapes
         self._graph_check()
-        self.graph.set_shape(onnx_tensor.name, list(onnx_tensor.dims))
+        self.graph.set_shape(self.output[0], list(onnx_tensor.dims))
 
     def get_body_graphs(self):
         self._graph_check()
-- 
2.43.0


From 042f63d9098666dfb4d5de86bdfdbeb1a32775d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:18 +0000
Subject: [PATCH 044/123] fix: models whose outputs are inputs or initializers
 could not be loaded

---
 tf2onnx/graph.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/tf2onnx/graph.py b/tf2onnx/graph.py
index 8a454be..8fa979e 100644
--- a/tf2onnx/graph.py
+++ b/tf2onnx/graph.py
@@ -755,7 +755,7 @@ class Graph(object):
                 raise ValueError("graph input '" + n.name + "' not exist")
         for o in self.outputs:
             if o not in self._output_to_node_name:
-                raise ValueError("graph output '" + o.name + "' not exist")
+                raise ValueError("graph output '" + o + "' not exist")
 
         self._dtypes = remained_dtypes
         self._output_shapes = remained_shapes
@@ -1716,9 +1716,13 @@ class GraphUtil(object):
         for n in graph_proto.output:
             output_names.append(n.name)
 
-        g = Graph(nodes_to_append, output_shapes, output_dtypes, target, opset_version, extra_opset, None, output_names)
+        # outputs that are inputs or initializers exist only after those are parsed
+        node_outputs = {o for n in graph_proto.node for o in n.output}
+        g = Graph(nodes_to_append, output_shapes, output_dtypes, target, opset_version, extra_opset, None,
+                  [o for o in output_names if o in node_outputs])
         const_nodes = GraphUtil._parse_graph_initializer(g, graph_proto)
         GraphUtil._parse_graph_input(g, graph_proto, [n.name for n in const_nodes])
+        g.outputs = output_names
 
         for n in g.get_nodes():
             for attr_name, attr_val in n.attr.items():
-- 
2.43.0


From d1ec7a3f42d7c8a1d344d0ad17333b72d086c769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:18 +0000
Subject: [PATCH 045/123] fix: transposes before reductions over all axes (no
 axes input) made the transpose optimizer fail

---
 tf2onnx/optimizer/transpose_optimizer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tf2onnx/optimizer/transpose_optimizer.py b/tf2onnx/optimizer/transpose_optimizer.py
index ed00f25..6959819 100644
--- a/tf2onnx/optimizer/transpose_optimizer.py
+++ b/tf2onnx/optimizer/transpose_optimizer.py
@@ -965,6 +965,9 @@ class TransposeOptimizer(GraphOptimizerBase):
         keepdims = node.get_attr("keepdims")
         if keepdims and keepdims.i == 0:
             return False
+        if len(node.inputs) < 2 or node.inputs[1] is None:
+            # without axes everything is reduced: only the transpose of ones remains
+            return self._switch_transpose_and_node(node, trans)
         if node.inputs[1].is_const():
             axes = node.inputs[1].get_tensor_value()
             perm = trans.get_attr('perm').ints
-- 
2.43.0


From 43162e8b8f9829f6ac64754c98f2276a7138ddb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:18 +0000
Subject: [PATCH 046/123] fix: moving a transpose out of a loop body left a
 stale shape and broke outputs taken from outside or listed twice

---
 tf2onnx/optimizer/loop_optimizer.py | 57 +++++++++++++++++------------
 1 file changed, 33 insertions(+), 24 deletions(-)

diff --git a/tf2onnx/optimizer/loop_optimizer.py b/tf2onnx/optimizer/loop_optimizer.py
index d52d1a5..6e21045 100644
--- a/tf2onnx/optimizer/loop_optimizer.py
+++ b/tf2onnx/optimizer/loop_optimizer.py
@@ -53,33 +53,42 @@ class LoopOptimizer(GraphOptimizerBase):
         scan_nodes = [body_graph.get_node_by_output(name) for name in scan_nodes_name_in_body]
         graph_is_changed = False
         for node, name_in_parent in zip(scan_nodes, scan_node_in_parent):
-            # 1 delete node in body graph if possible
+            # 1 find the transpose in the body graph that can be moved
             # only consider two case: trans is output, or transpose > identity > output
-            need_process = False
-            if node.type == "Transpose" and self.num_consumers(body_graph, node) == 1:
-                trans = node
-                new_output = node.input[0]
-                body_graph.remove_node(node.name)
-                need_process = True
-            elif node.type == "Identity" and node.inputs[0].type == "Transpose" \
-                    and self.num_consumers(body_graph, node) == 1\
-                    and self.num_consumers(body_graph, node.inputs[0]) == 1:
+            if node is None or node.type not in ["Transpose", "Identity"] or self.num_consumers(body_graph, node) != 1:
+                continue
+            trans = node
+            if node.type == "Identity":
                 trans = node.inputs[0]
-                new_output = node.inputs[0].input[0]
-                body_graph.remove_node(node.inputs[0].name)
-                body_graph.remove_node(node.name)
-                need_process = True
+                if trans is None or trans.type != "Transpose" or self.num_consumers(body_graph, trans) != 1:
+                    continue
+            if node.graph is not body_graph or trans.graph is not body_graph or name_in_parent in parent_graph.outputs:
+                continue
+            # a tensor from outside can't be an output of the body graph. Without iterations, the rank of the scan output
+            # comes from the shape of the output of the body graph.
+            new_output = trans.input[0]
+            shape = body_graph.get_shape(new_output)
+            if body_graph.get_node_by_output_in_current_graph(new_output) is None or shape is None:
+                continue
 
-            if need_process:
-                # 2 correct body graph's output
-                body_outputs = body_graph.outputs
-                body_outputs[body_outputs.index(node.output[0])] = new_output
-                # 3 insert new node in parent graph
-                ori_perm = list(trans.get_attr("perm").ints)
-                new_perm = [0] + [i + 1 for i in ori_perm]  # body output's rank is m > rank of loop's output is m+1
-                name = make_name("trans_moved_from_loop_body")
-                _ = parent_graph.insert_new_node_on_output("Transpose", name_in_parent, name, perm=new_perm)
-                graph_is_changed = True
+            # 2 correct body graph's output
+            for n in ([trans] if trans is node else [trans, node]):
+                body_graph.remove_node(n.name)
+            if new_output in body_graph.outputs:
+                new_output = body_graph.make_node("Identity", [new_output], shapes=[shape],
+                                                  dtypes=[body_graph.get_dtype(new_output)]).output[0]
+            body_outputs = body_graph.outputs
+            body_outputs[body_outputs.index(node.output[0])] = new_output
+            # 3 insert new node in parent graph
+            perm_attr = trans.get_attr("perm")
+            ori_perm = list(perm_attr.ints) if perm_attr else list(reversed(range(len(shape))))
+            new_perm = [0] + [i + 1 for i in ori_perm]  # body output's rank is m > rank of loop's output is m+1
+            name = make_name("trans_moved_from_loop_body")
+            loop_shape = parent_graph.get_shape(name_in_parent)
+            if loop_shape is not None:
+                parent_graph.set_shape(name_in_parent, [loop_shape[0]] + list(shape))
+            _ = parent_graph.insert_new_node_on_output("Transpose", name_in_parent, name, perm=new_perm)
+            graph_is_changed = True
 
         return graph_is_changed
 
-- 
2.43.0


From 59b8fd4095d6be40cfd8ededa00e897574a02155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:48 +0000
Subject: [PATCH 047/123] fix: decomposing einsum at opset 12 made a ReduceSum
 of opset 13

---
 tf2onnx/optimizer/einsum_optimizer.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/tf2onnx/optimizer/einsum_optimizer.py b/tf2onnx/optimizer/einsum_optimizer.py
index 0b2eab4..e94430a 100644
--- a/tf2onnx/optimizer/einsum_optimizer.py
+++ b/tf2onnx/optimizer/einsum_optimizer.py
@@ -620,11 +620,15 @@ class EinsumSubOp:
         inp = self.inputs[0]
         name = self._get_data(names, inp)
         axes = self.kwargs['axes']
-        name_axes = self._onnx_name() + '_axes'
-        yield numpy_helper.from_array(
-            np.array(axes, dtype=np.int64), name=name_axes)
-        yield helper.make_node(
-            'ReduceSum', [name, name_axes], [self._onnx_name()], keepdims=1)
+        if opset >= 13:
+            name_axes = self._onnx_name() + '_axes'
+            yield numpy_helper.from_array(
+                np.array(axes, dtype=np.int64), name=name_axes)
+            yield helper.make_node(
+                'ReduceSum', [name, name_axes], [self._onnx_name()], keepdims=1)
+        else:
+            yield helper.make_node(
+                'ReduceSum', [name], [self._onnx_name()], keepdims=1, axes=list(axes))
 
     def _to_onnx_mul(self, data, opset):
         self._check_inputs_(2)
-- 
2.43.0


From e23075fdb8fe8d18f7e7a5e557c521eb4f11cf2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:48 +0000
Subject: [PATCH 048/123] fix: an einsum whose first operand is a scalar lost
 that operand

---
 tf2onnx/optimizer/einsum_optimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tf2onnx/optimizer/einsum_optimizer.py b/tf2onnx/optimizer/einsum_optimizer.py
index e94430a..e118521 100644
--- a/tf2onnx/optimizer/einsum_optimizer.py
+++ b/tf2onnx/optimizer/einsum_optimizer.py
@@ -1385,7 +1385,7 @@ def analyse_einsum_equation(equation):
         p & \\text{p is position of letter j in equation i}
         \\end{array}\\right.
     """
-    spl = equation.strip(' ,').split("->")
+    spl = equation.strip().split("->")
     if len(spl) != 2 or len(spl[1]) == 0 or len(spl[0]) == 0:
         raise NotImplementedError(
             "The function only implements the case when there are "
-- 
2.43.0


From 2001971fc2826e364faa059d42aa223d6cdd3b0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:48 +0000
Subject: [PATCH 049/123] fix: decomposing einsum lost the shape of its output

---
 tf2onnx/optimizer/einsum_optimizer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tf2onnx/optimizer/einsum_optimizer.py b/tf2onnx/optimizer/einsum_optimizer.py
index e118521..04e2e43 100644
--- a/tf2onnx/optimizer/einsum_optimizer.py
+++ b/tf2onnx/optimizer/einsum_optimizer.py
@@ -2318,6 +2318,8 @@ class EinsumOptimizer(GraphOptimizerBase):
                 self.logger.info(
                     "replacing einsum node %r by its decomposed version, name of the last "
                     "node %r.", node.name, last_node.name)
+                if graph.get_shape(last_node.output[0]) is None and graph.get_shape(node.output[0]) is not None:
+                    graph.copy_shape(node.output[0], last_node.output[0])
                 graph.replace_all_inputs(node.output[0], last_node.output[0])
                 graph.safe_remove_nodes([node])
                 if node.output[0] in graph.outputs:
-- 
2.43.0


From 51296a8f1c8db454c79b94575a385c4ffb635576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:21 +0000
Subject: [PATCH 050/123] fix: TF2ONNX_CATCH_ERRORS=TRUE was read as FALSE

---
 tf2onnx/convert.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tf2onnx/convert.py b/tf2onnx/convert.py
index e27a7ac..17522f8 100644
--- a/tf2onnx/convert.py
+++ b/tf2onnx/convert.py
@@ -194,7 +194,7 @@ def _convert_common(frozen_graph, name="unknown", large_model=False, output_path
         g = process_tf_graph(tf_graph, const_node_values=const_node_values,
                              custom_op_handlers=custom_op_handlers, **kwargs)
         if constants.ENV_TF2ONNX_CATCH_ERRORS in os.environ:
-            catch_errors = constants.ENV_TF2ONNX_CATCH_ERRORS.upper() == "TRUE"
+            catch_errors = os.environ[constants.ENV_TF2ONNX_CATCH_ERRORS].upper() == "TRUE"
         else:
             catch_errors = not large_model
         onnx_graph = optimizer.optimize_graph(g, catch_errors, optimizers=optimizers)
-- 
2.43.0


From d1d9ba3d330d68dbe0fc9d1c9e4123ba0ef07b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:43 +0000
Subject: [PATCH 051/123] fix: false cycle when a body node uses an outer node
 that has the same name as a node of the body

---
 tf2onnx/graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tf2onnx/graph.py b/tf2onnx/graph.py
index 8fa979e..5ec87c6 100644
--- a/tf2onnx/graph.py
+++ b/tf2onnx/graph.py
@@ -1062,7 +1062,7 @@ class Graph(object):
             for inp in sorted(all_input):
                 j = self.get_node_by_output(inp)
                 utils.make_sure(j is not None, "Cannot find node with output %r in graph %r", inp, self.graph_name)
-                if self.parent_graph and j.name not in op_name_to_index:
+                if self.parent_graph and (j.name not in op_name_to_index or ops[op_name_to_index[j.name]] is not j):
                     # there might be some outer-scoped inputs for an inner Graph.
                     pass
                 else:
-- 
2.43.0


From 6415aedc6eef4bd8e9aa46e45e729ab1a7bab5d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:43 +0000
Subject: [PATCH 052/123] fix: implicit inputs of a node were listed in random
 order

---
 tf2onnx/graph.py | 34 ++++++++++++++--------------------
 1 file changed, 14 insertions(+), 20 deletions(-)

diff --git a/tf2onnx/graph.py b/tf2onnx/graph.py
index 5ec87c6..152c6bc 100644
--- a/tf2onnx/graph.py
+++ b/tf2onnx/graph.py
@@ -392,28 +392,22 @@ class Node(object):
 
     def get_implicit_inputs(self, recursive=True):
         """Get implicit inputs if the node has attributes being GraphProto."""
-        output_available_in_cur_graph = set()
-        all_node_inputs = set()
-
-        graphs = []
-        body_graphs = self.get_body_graphs()
-        if body_graphs:
-            graphs.extend(body_graphs.values())
-
-        while graphs:
-            graph = graphs.pop()
+        def captured_by(graph):
+            # tensors used in graph or in bodies nested in it that graph does not produce, in order of use
+            used = {}
+            produced = set()
             for n in graph.get_nodes():
-                output_available_in_cur_graph |= set(n.output)
-                for i in n.input:
-                    all_node_inputs.add(i)
-
+                produced.update(n.output)
+                used.update(dict.fromkeys(n.input))
                 if recursive:
-                    b_graphs = n.get_body_graphs()
-                    if b_graphs:
-                        graphs.extend(b_graphs.values())
-
-        outer_scope_node_input_ids = all_node_inputs - output_available_in_cur_graph
-        return list(outer_scope_node_input_ids)
+                    for b_graph in (n.get_body_graphs() or {}).values():
+                        used.update(dict.fromkeys(captured_by(b_graph)))
+            return [i for i in used if i not in produced]
+
+        implicit_inputs = {}
+        for body_graph in (self.get_body_graphs() or {}).values():
+            implicit_inputs.update(dict.fromkeys(captured_by(body_graph)))
+        return list(implicit_inputs)
 
     def _graph_check(self):
         utils.make_sure(self.graph is not None, "Node %s not belonging any graph",
-- 
2.43.0


From 736d4bf29ddd1d2c84c21e116fae02a7571db91e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:50 +0000
Subject: [PATCH 053/123] fix: results of optimizations and rewriters depended
 on the iteration order of sets

---
 tf2onnx/graph.py                            | 13 +++++++------
 tf2onnx/optimizer/back_to_back_optimizer.py |  2 +-
 tf2onnx/optimizer/transpose_optimizer.py    |  8 ++++----
 tf2onnx/rewriter/loop_rewriter.py           |  2 +-
 tf2onnx/rewriter/random_uniform.py          |  4 ++--
 tf2onnx/rewriter/rnn_utils.py               |  2 +-
 tf2onnx/utils.py                            |  2 +-
 7 files changed, 17 insertions(+), 16 deletions(-)

diff --git a/tf2onnx/graph.py b/tf2onnx/graph.py
index 152c6bc..374c80a 100644
--- a/tf2onnx/graph.py
+++ b/tf2onnx/graph.py
@@ -1402,13 +1402,13 @@ class Graph(object):
     def _register_input_name(self, input_name, node):
         "Register node taking a specific input."
         if input_name not in self._output_to_consumers:
-            self._output_to_consumers[input_name] = set()
-        self._output_to_consumers[input_name].add(node.name)
+            self._output_to_consumers[input_name] = {}
+        self._output_to_consumers[input_name][node.name] = None
 
     def _unregister_input_name(self, input_name, node):
         "Unregister node taking a specific input."
         if input_name in self._output_to_consumers:
-            self._output_to_consumers[input_name].discard(node.name)
+            self._output_to_consumers[input_name].pop(node.name, None)
 
     def _body_graphs_seeing(self, tensor_name):
         "The bodies of the nodes of this graph, except the ones which have an own tensor of that name."
@@ -1424,7 +1424,7 @@ class Graph(object):
         if old_input == new_input:
             return
         if new_input not in self._output_to_consumers:
-            self._output_to_consumers[new_input] = set()
+            self._output_to_consumers[new_input] = {}
 
         if ops is not None:
             keep_ops = True
@@ -1548,7 +1548,8 @@ class Graph(object):
             node = self.get_node_by_output(output, search_in_parent_graphs=False)
             res_set = res_set.union(self._extract_sub_graph_nodes(node, input_checker))
 
-        return list(res_set)
+        # in the order of the graph, not of the set
+        return [node for node in self._nodes if node in res_set]
 
     def delete_unused_nodes(self, outputs_name):
         """Delete nodes not in subgraph ending with output_names."""
@@ -1572,7 +1573,7 @@ class Graph(object):
         """ List of nodes that safe to delete (i.e. outputs not consumed by other nodes.)"""
         safe_to_remove = []
         delete_set = set(to_delete)
-        for n in delete_set:
+        for n in dict.fromkeys(to_delete):
             out_consumers = set()
             for out in n.output:
                 out_consumers |= set(self.find_output_consumers(out))
diff --git a/tf2onnx/optimizer/back_to_back_optimizer.py b/tf2onnx/optimizer/back_to_back_optimizer.py
index 8c9c1b6..6c8e04d 100644
--- a/tf2onnx/optimizer/back_to_back_optimizer.py
+++ b/tf2onnx/optimizer/back_to_back_optimizer.py
@@ -53,7 +53,7 @@ class BackToBackOptimizer(GraphOptimizerBase):
                     has_dependencies.add(n.output[0])
 
             # q = starting nodes with no dependencies
-            q = list(set(consumer_node_ids.keys()) - has_dependencies)
+            q = [nodeid for nodeid in consumer_node_ids if nodeid not in has_dependencies]
             while q:
                 nodeid = q.pop(0)
                 node = g.get_node_by_output(nodeid, False)
diff --git a/tf2onnx/optimizer/transpose_optimizer.py b/tf2onnx/optimizer/transpose_optimizer.py
index 6959819..ad74111 100644
--- a/tf2onnx/optimizer/transpose_optimizer.py
+++ b/tf2onnx/optimizer/transpose_optimizer.py
@@ -260,7 +260,7 @@ class TransposeOptimizer(GraphOptimizerBase):
         # otherwise, it would impact their other output nodes
         if self._nodes_has_single_consumer_node(node.inputs):
             self._create_transpose_pairs_after_node(trans, node)
-            input_transposes = set(node.inputs)
+            input_transposes = dict.fromkeys(node.inputs)
             for n in input_transposes:
                 n_input = n.input[0]
                 utils.make_sure(len(n.output) == 1, "only expect single output")
@@ -551,7 +551,7 @@ class TransposeOptimizer(GraphOptimizerBase):
         perm = trans.get_attr_value("perm")
         perm_inv = invert_perm(perm)
         if is_tranpose_of_type(node, perm_inv) and self._output_node_has_single_consumer_node(node):
-            for g in {self._g, node.graph}:
+            for g in dict.fromkeys([self._g, node.graph]):
                 g.replace_all_inputs(node.output[0], trans.input[0])  # ops=g.get_nodes()
 
             shape = node.graph.get_shape(node.output[0])
@@ -696,7 +696,7 @@ class TransposeOptimizer(GraphOptimizerBase):
             self._g.set_shape(node.output[0], [shape[i] for i in untrans_idx])
 
         # update constants, remove dangling transposes
-        for n in set(inputs):
+        for n in dict.fromkeys(inputs):
             if n.is_const():
                 val = n.get_tensor_value(as_list=False)
                 new_val = np.transpose(val, untrans_idx)
@@ -708,7 +708,7 @@ class TransposeOptimizer(GraphOptimizerBase):
     def _identity_handler(self, trans, node):
         if node.output[0] in node.graph.outputs:
             return False
-        for g in {self._g, node.graph}:
+        for g in dict.fromkeys([self._g, node.graph]):
             g.replace_all_inputs(node.output[0], trans.output[0])  # ops=g.get_nodes()
         node.graph.remove_node(node.name)
         return True
diff --git a/tf2onnx/rewriter/loop_rewriter.py b/tf2onnx/rewriter/loop_rewriter.py
index 27600dc..1e35a21 100644
--- a/tf2onnx/rewriter/loop_rewriter.py
+++ b/tf2onnx/rewriter/loop_rewriter.py
@@ -48,7 +48,7 @@ class LoopRewriter(LoopRewriterBase):
 
             ## create Loop body graph with existing nodes
 
-            body_nodes = set(cell_g_info.nodes + cond_g_info.nodes)
+            body_nodes = list(dict.fromkeys(cell_g_info.nodes + cond_g_info.nodes))
             body_outputs = cond_g_info.outputs + cell_g_info.outputs
             for out_tensor_value_info in body_outputs:
                 shape = out_tensor_value_info.shape
diff --git a/tf2onnx/rewriter/random_uniform.py b/tf2onnx/rewriter/random_uniform.py
index 3c68f6e..6516778 100644
--- a/tf2onnx/rewriter/random_uniform.py
+++ b/tf2onnx/rewriter/random_uniform.py
@@ -31,7 +31,7 @@ def rewrite_random_uniform(g, ops):
         # max is on input 0
         tmax = input2.inputs[0].get_tensor_value()
         tmin = input2.inputs[1].get_tensor_value()
-        to_delete = list(set(match.get_nodes()))
+        to_delete = list(dict.fromkeys(match.get_nodes()))
         new_node = create_onnx_random_uniform_op(g, tmax, tmin, ru_op, output, to_delete)
         g.replace_all_inputs(output.output[0], new_node.output[0], ops=ops)
         g.safe_remove_nodes(to_delete)
@@ -59,7 +59,7 @@ def rewrite_random_uniform_fold_const(g, ops):
         tmax_minus_tmin = mul.inputs[1].get_tensor_value()
         tmin = output.inputs[1].get_tensor_value()
         tmax = tmin + tmax_minus_tmin
-        to_delete = list(set(match.get_nodes()))
+        to_delete = list(dict.fromkeys(match.get_nodes()))
         new_node = create_onnx_random_uniform_op(g, tmax, tmin, ru_op, output, to_delete)
         g.replace_all_inputs(output.output[0], new_node.output[0], ops=ops)
         g.safe_remove_nodes(to_delete)
diff --git a/tf2onnx/rewriter/rnn_utils.py b/tf2onnx/rewriter/rnn_utils.py
index 9cd2f2a..1e5040c 100644
--- a/tf2onnx/rewriter/rnn_utils.py
+++ b/tf2onnx/rewriter/rnn_utils.py
@@ -541,7 +541,7 @@ def find_bidirectional_rnns(g, ops, rnn_type):
                 fw_rnns[input_id].append(n)
 
     # fw_rnn and bw_rnn must share the same input
-    birnn_input = list(set(fw_rnns.keys()).intersection(bw_rnns.keys()))
+    birnn_input = [inp for inp in fw_rnns if inp in bw_rnns]
     bi_rnns = []
     matched_rnn = []
     for inp in birnn_input:
diff --git a/tf2onnx/utils.py b/tf2onnx/utils.py
index d23ce2a..2fedd24 100644
--- a/tf2onnx/utils.py
+++ b/tf2onnx/utils.py
@@ -369,7 +369,7 @@ def construct_graph_from_nodes(parent_g, nodes, outputs, shapes, dtypes):
     # pylint: disable=protected-access
     g = parent_g.create_new_graph_with_same_config()
     g.parent_graph = parent_g
-    nodes = set(nodes)
+    nodes = list(dict.fromkeys(nodes))
     all_outputs = set()
     for op in nodes:
         all_outputs |= set(op.output)
-- 
2.43.0


From 583d1dcf7950325b622d85212f5b3e6a4b15a035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:54 +0000
Subject: [PATCH 054/123] fix: a node listed twice by a rewriter stayed listed
 twice

---
 tf2onnx/graph.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tf2onnx/graph.py b/tf2onnx/graph.py
index 374c80a..f3ca55d 100644
--- a/tf2onnx/graph.py
+++ b/tf2onnx/graph.py
@@ -1548,8 +1548,8 @@ class Graph(object):
             node = self.get_node_by_output(output, search_in_parent_graphs=False)
             res_set = res_set.union(self._extract_sub_graph_nodes(node, input_checker))
 
-        # in the order of the graph, not of the set
-        return [node for node in self._nodes if node in res_set]
+        # in the order of the graph, not of the set; rewriters may have listed a node twice
+        return [node for node in dict.fromkeys(self._nodes) if node in res_set]
 
     def delete_unused_nodes(self, outputs_name):
         """Delete nodes not in subgraph ending with output_names."""
-- 
2.43.0


From 419d58251bf795ea157eb3cb3e004218c835bdb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:04 +0000
Subject: [PATCH 055/123] fix: Select of floats blended with NaN or infinity of
 the side that is not selected

---
 tf2onnx/onnx_opset/controlflow.py | 26 ++------------------------
 1 file changed, 2 insertions(+), 24 deletions(-)

diff --git a/tf2onnx/onnx_opset/controlflow.py b/tf2onnx/onnx_opset/controlflow.py
index 5247df4..5a33232 100644
--- a/tf2onnx/onnx_opset/controlflow.py
+++ b/tf2onnx/onnx_opset/controlflow.py
@@ -190,30 +190,8 @@ class Select:
         # NOTE: condition can be 1-dimension in tensorflow, while in onnx,
         # it should be broadcastable with other two inputs
 
-        # We can't use the mul/add trick if a NaN is involved. handles_nan is added earlier in the converter.
-        handles_nan = node.get_attr_value("handles_nan", False)
-        if ctx.get_dtype(node.output[0]) in [TensorProto.FLOAT, TensorProto.DOUBLE]:
-            cond_node = node.inputs[0]
-            if cond_node.type in {"IsNaN", "IsInf"}:
-                # We can't use the mul trick if Inf is involved since Inf * 0 = NaN as per IEEE 754.
-                handles_nan = True
-            if cond_node.type == "NotEqual" and cond_node.input[0] == cond_node.input[1]:
-                handles_nan = True
-            if cond_node.type == "Not" and cond_node.inputs[0].type == "Equal":
-                eq_node = cond_node.inputs[0]
-                if eq_node.input[0] == eq_node.input[1]:
-                    handles_nan = True
-            for inp in node.inputs[1:]:
-                if handles_nan:
-                    break
-                if inp.is_const() and (np.any(np.isnan(inp.get_tensor_value(as_list=False))) or \
-                                       np.any(np.isinf(inp.get_tensor_value(as_list=False)))):
-                    handles_nan = True
-                if inp.type == "Mul":
-                    inp0 = inp.inputs[0].is_const() and np.any(np.isinf(inp.inputs[0].get_tensor_value(as_list=False)))
-                    inp1 = inp.inputs[1].is_const() and np.any(np.isinf(inp.inputs[1].get_tensor_value(as_list=False)))
-                    handles_nan = inp0 or inp1
-
+        # The mul/add trick gives NaN if NaN or Inf is among the values that are not selected.
+        handles_nan = ctx.get_dtype(node.output[0]) in [TensorProto.FLOAT, TensorProto.DOUBLE]
         if ctx.get_dtype(node.output[0]) != TensorProto.STRING and not handles_nan:
             # Due to bad ORT implementation, Mul/Add ops are faster than Where op
             cls.version_7(ctx, node, **kwargs)
-- 
2.43.0


From 2d544380efcf53b9104de98179ce00d98f74a54e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:04 +0000
Subject: [PATCH 056/123] fix: the condition of a while loop mixed the int64
 iteration number with int32 limits

---
 tf2onnx/onnx_opset/controlflow.py | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/tf2onnx/onnx_opset/controlflow.py b/tf2onnx/onnx_opset/controlflow.py
index 5a33232..55ed1d8 100644
--- a/tf2onnx/onnx_opset/controlflow.py
+++ b/tf2onnx/onnx_opset/controlflow.py
@@ -411,8 +411,14 @@ class While:
         for idx, name in enumerate(tf_while_inputs):
             if idx == 1:
                 # onnx does not know maximum_iterations in the body so move this to a state var
-                body_input_to_state_var[body.input_names[idx]] = maximum_iterations_name
-                cond_input_to_state_var[cond_graph.input_names[idx]] = maximum_iterations_name
+                state_var = maximum_iterations_name
+                state_dtype = cond_graph.get_dtype(cond_graph.input_names[idx])
+                if ctx.get_dtype(state_var) == onnx_pb.TensorProto.INT64 and state_dtype == onnx_pb.TensorProto.INT32:
+                    # tensorflow's type is used in the body and the condition
+                    state_var = ctx.make_node("Cast", [state_var], attr={"to": state_dtype},
+                                              shapes=[[]], dtypes=[state_dtype]).output[0]
+                body_input_to_state_var[body.input_names[idx]] = state_var
+                cond_input_to_state_var[cond_graph.input_names[idx]] = state_var
                 continue
             if idx < 2:
                 # skip [0,1] loop_counter, max_iterations
@@ -491,7 +497,9 @@ class While:
 
         # In onnx 'cond' is a variable, not a function. We need to inject the subgraph into the main graph
         # before the loop and into the body.
-        cond_binding = parameter_binding(cond_graph, tf_while_inputs)
+        cond_inputs = list(tf_while_inputs)
+        cond_inputs[1] = cond_input_to_state_var[cond_graph.input_names[1]]
+        cond_binding = parameter_binding(cond_graph, cond_inputs)
         cond_outputs = inline_subgraph(ctx, cond_graph, cond_name, cond_binding)
         # onnx Loop op outputs only loop_vars so we need shift output dtypes/shapes and consumers
         output_shapes = output_shapes[2:]
@@ -627,7 +635,13 @@ def wire_while_body(parent_g, g, loop_node, body_input_to_state_var, cond_input_
     for node in to_remove:
         g.remove_node(node.name)
 
-    cond_binding = parameter_binding(cond_graph, func_inputs[:1] + g.outputs[2:], cond_input_to_state_var)
+    # the iteration number of an onnx loop is int64, the condition expects the type tensorflow gave it
+    cond_iteration = func_inputs[0]
+    cond_dtype = cond_graph.get_dtype(cond_graph.input_names[0])
+    if cond_dtype not in [None, onnx_pb.TensorProto.UNDEFINED, onnx_pb.TensorProto.INT64]:
+        cond_iteration = g.make_node("Cast", [func_inputs[0]], attr={"to": cond_dtype},
+                                     shapes=[[]], dtypes=[cond_dtype]).output[0]
+    cond_binding = parameter_binding(cond_graph, [cond_iteration] + g.outputs[2:], cond_input_to_state_var)
     cond_outputs = inline_subgraph(g, cond_graph, "cond__", cond_binding)
 
     g.outputs = [cond_outputs[0]] + g.outputs[2:] + scan_outputs
-- 
2.43.0


From c6260edccc935ae353e68804e2605e92b0aeaf5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:04 +0000
Subject: [PATCH 057/123] fix: Greater and Less compared integers as float

---
 tf2onnx/onnx_opset/logical.py | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/tf2onnx/onnx_opset/logical.py b/tf2onnx/onnx_opset/logical.py
index a8824e9..acca32f 100644
--- a/tf2onnx/onnx_opset/logical.py
+++ b/tf2onnx/onnx_opset/logical.py
@@ -144,16 +144,39 @@ class GreaterLess:
         target_dtype = TensorProto.FLOAT
         _add_cast_to_inputs(ctx, node, supported_dtypes, target_dtype)
 
+    @classmethod
+    def version_9(cls, ctx, node, **kwargs):
+        # since opset 9 all numeric types are allowed, casting to float would lose bits of integers
+        supported_dtypes = [
+            TensorProto.FLOAT,
+            TensorProto.FLOAT16,
+            TensorProto.DOUBLE,
+            TensorProto.INT32,
+            TensorProto.INT64
+        ]
+        target_dtype = TensorProto.FLOAT
+        _add_cast_to_inputs(ctx, node, supported_dtypes, target_dtype)
+
 @tf_op(["GreaterEqual", "LessEqual"])
 class GreaterLessEqual:
     @classmethod
     def version_7(cls, ctx, node, **kwargs):
-        GreaterLess.version_7(ctx, node, **kwargs)
+        if ctx.opset < 9:
+            GreaterLess.version_7(ctx, node, **kwargs)
+        else:
+            GreaterLess.version_9(ctx, node, **kwargs)
         output_name = node.output[0]
         node.op.op_type = "Less" if node.op.op_type == "GreaterEqual" else "Greater"
         new_node = ctx.insert_new_node_on_output("Not", output_name, name=utils.make_name(node.name))
         ctx.copy_shape(output_name, new_node.output[0])
         ctx.set_dtype(new_node.output[0], ctx.get_dtype(output_name))
+        if ctx.get_dtype(node.input[0]) in FLOAT_DTYPES:
+            # NaN is not less, but not greater or equal either
+            not_nan = _make_not_nan(ctx, *node.input)
+            and_node = ctx.insert_new_node_on_output("And", new_node.output[0], name=utils.make_name(node.name),
+                                                     inputs=[new_node.output[0], not_nan])
+            ctx.copy_shape(output_name, and_node.output[0])
+            ctx.copy_dtype(output_name, and_node.output[0])
 
     @classmethod
     def version_12(cls, ctx, node, **kwargs):
-- 
2.43.0


From 4b02d6a1fc676970773f927ad406ff97bd7efeee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:04 +0000
Subject: [PATCH 058/123] fix: comparisons before opset 12 were wrong for NaN
 and truncated floats

---
 tf2onnx/onnx_opset/logical.py | 36 +++++++++++++++++++++++++++++++++--
 1 file changed, 34 insertions(+), 2 deletions(-)

diff --git a/tf2onnx/onnx_opset/logical.py b/tf2onnx/onnx_opset/logical.py
index acca32f..702180e 100644
--- a/tf2onnx/onnx_opset/logical.py
+++ b/tf2onnx/onnx_opset/logical.py
@@ -46,6 +46,21 @@ def _add_cast_to_same_type_to_inputs(graph, node, supported_dtypes, target_dtype
                 const_node.set_tensor_value(utils.np.array(-1))
 
 
+FLOAT_DTYPES = [TensorProto.FLOAT, TensorProto.FLOAT16, TensorProto.DOUBLE]
+
+def _make_not_nan(graph, x, y):
+    """Makes a tensor that is false where x or y is NaN."""
+    np_dtype = utils.map_onnx_to_numpy_type(graph.get_dtype(x))
+    one = graph.make_const(utils.make_name("const_one"), utils.np.array(1, np_dtype)).output[0]
+    minus_one = graph.make_const(utils.make_name("const_minus_one"), utils.np.array(-1, np_dtype)).output[0]
+    not_nan = []
+    for value in [x, y]:
+        greater = graph.make_node("Greater", [value, minus_one]).output[0]
+        less = graph.make_node("Less", [value, one]).output[0]
+        not_nan.append(graph.make_node("Or", [greater, less]).output[0])
+    return graph.make_node("And", not_nan).output[0]
+
+
 @tf_op("LogicalNot", onnx_op="Not")
 class DirectOp:
     @classmethod
@@ -76,17 +91,34 @@ class Equal:
     def version_7(cls, ctx, node, **kwargs):
         # T2 output = Equal(T1, x, T1 y), T1 \in {bool, int32, int64}
         need_not = node.type == "NotEqual"
-        if need_not and node.input[0] == node.input[1]:
+        is_float = ctx.get_dtype(node.input[0]) in FLOAT_DTYPES
+        if need_not and node.input[0] == node.input[1] and is_float and ctx.opset >= 9:
             # The only value not equal to itself is NaN
             node.type = "IsNaN"
             ctx.replace_inputs(node, [node.input[0]])
             return
+        if is_float:
+            # real numbers are equal if none is less, and none is NaN
+            shapes = node.output_shapes
+            dtypes = node.output_dtypes
+            less = ctx.make_node("Less", node.input).output[0]
+            greater = ctx.make_node("Greater", node.input).output[0]
+            not_nan = _make_not_nan(ctx, *node.input)
+            different = ctx.make_node("Or", [less, greater]).output[0]
+            ctx.remove_node(node.name)
+            if need_not:
+                nan = ctx.make_node("Not", [not_nan]).output[0]
+                inputs, op_type = [different, nan], "Or"
+            else:
+                same = ctx.make_node("Not", [different]).output[0]
+                inputs, op_type = [same, not_nan], "And"
+            ctx.make_node(op_type, inputs, name=node.name, outputs=node.output, shapes=shapes, dtypes=dtypes)
+            return
         supported_dtypes = [
             TensorProto.BOOL,
             TensorProto.INT32,
             TensorProto.INT64
         ]
-        # FIXME: casting is not the same as equal
         target_dtype = TensorProto.INT32
         _add_cast_to_inputs(ctx, node, supported_dtypes, target_dtype)
         if need_not:
-- 
2.43.0


From 595e30f72a9bc43ed1a91c8a439ac63636cfe1a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:04 +0000
Subject: [PATCH 059/123] fix: Maximum and Minimum of integers before opset 12
 went through float

---
 tf2onnx/onnx_opset/math.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tf2onnx/onnx_opset/math.py b/tf2onnx/onnx_opset/math.py
index 9c49dad..466db16 100644
--- a/tf2onnx/onnx_opset/math.py
+++ b/tf2onnx/onnx_opset/math.py
@@ -88,6 +88,9 @@ def make_min_or_max_op(ctx, op_type, inputs, outputs,
         onnx_pb.TensorProto.DOUBLE
     ]
     target_dtype = onnx_pb.TensorProto.FLOAT
+    if any(ctx.get_dtype(inp) in [onnx_pb.TensorProto.INT32, onnx_pb.TensorProto.INT64] for inp in inputs):
+        # float has too few bits
+        target_dtype = onnx_pb.TensorProto.DOUBLE
     need_cast = False
     cast_inputs = []
     for inp in inputs:
-- 
2.43.0


From 524800bab837e908879b8d3b853c7c0b99bd5fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:04 +0000
Subject: [PATCH 060/123] fix: Pow of integers before opset 12 was not
 convertible

---
 tf2onnx/onnx_opset/math.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/tf2onnx/onnx_opset/math.py b/tf2onnx/onnx_opset/math.py
index 466db16..1b434a2 100644
--- a/tf2onnx/onnx_opset/math.py
+++ b/tf2onnx/onnx_opset/math.py
@@ -329,6 +329,20 @@ class Pow:
 
     @classmethod
     def version_7(cls, ctx, node, **kwargs):
+        # before opset 12 Pow takes real numbers only
+        dtype = ctx.get_dtype(node.input[0])
+        if dtype in [onnx_pb.TensorProto.INT32, onnx_pb.TensorProto.INT64]:
+            for i in range(2):
+                cast = ctx.make_node("Cast", [node.input[i]], attr={"to": onnx_pb.TensorProto.DOUBLE})
+                ctx.replace_input(node, node.input[i], cast.output[0], i)
+            cast_back = ctx.insert_new_node_on_output("Cast", node.output[0], name=utils.make_name(node.name),
+                                                      to=dtype)
+            ctx.set_dtype(node.output[0], onnx_pb.TensorProto.DOUBLE)
+            ctx.set_dtype(cast_back.output[0], dtype)
+            ctx.copy_shape(node.output[0], cast_back.output[0])
+
+    @classmethod
+    def version_12(cls, ctx, node, **kwargs):
         pass
 
 
-- 
2.43.0


From 0a5389c9ece129fcfb7cc9e1d83aa8bfa773873b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:04 +0000
Subject: [PATCH 061/123] fix: DivNoNan before opset 11 compared floats with
 Equal

---
 tf2onnx/onnx_opset/math.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/tf2onnx/onnx_opset/math.py b/tf2onnx/onnx_opset/math.py
index 1b434a2..7ebdc2f 100644
--- a/tf2onnx/onnx_opset/math.py
+++ b/tf2onnx/onnx_opset/math.py
@@ -353,7 +353,12 @@ class DivNoNan:
         node.type = "Div"
         np_dtype = utils.map_onnx_to_numpy_type(ctx.get_dtype(node.input[1]))
         zero_const = ctx.make_const(utils.make_name("const_zero"), np.array(0, np_dtype)).output[0]
-        is_zero = ctx.make_node("Equal", [node.input[1], zero_const]).output[0]
+        if ctx.opset < 11:
+            # Equal does not take real numbers
+            is_not_zero = ctx.make_node("Cast", [node.input[1]], attr={"to": onnx_pb.TensorProto.BOOL}).output[0]
+            is_zero = ctx.make_node("Not", [is_not_zero]).output[0]
+        else:
+            is_zero = ctx.make_node("Equal", [node.input[1], zero_const]).output[0]
         where_node = ctx.make_node("Where", [is_zero, zero_const, node.output[0]])
         ctx.insert_node_on_output(where_node, node.output[0])
 
-- 
2.43.0


From 9c31ffe716112d1ab3886b272117c04422ffce73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:04 +0000
Subject: [PATCH 062/123] fix: FloorDiv and FloorMod of negative integers
 truncated

---
 tf2onnx/onnx_opset/math.py | 51 +++++++++++++++++++++++++++++++++++---
 1 file changed, 48 insertions(+), 3 deletions(-)

diff --git a/tf2onnx/onnx_opset/math.py b/tf2onnx/onnx_opset/math.py
index 7ebdc2f..1e42535 100644
--- a/tf2onnx/onnx_opset/math.py
+++ b/tf2onnx/onnx_opset/math.py
@@ -531,6 +531,35 @@ class Erf:
         pass
 
 
+def make_floor_div_mod(ctx, node):
+    """Makes quotient and remainder (sign of the divisor) of an integer division, ONNX Div truncates."""
+    x, y = node.input
+    dtype = ctx.get_dtype(x)
+    if ctx.opset >= 10:
+        mod = ctx.make_node("Mod", [x, y], op_name_scope=node.name).output[0]
+        diff = ctx.make_node("Sub", [x, mod], op_name_scope=node.name).output[0]
+        return "Div", [diff, y], "Mod", [x, y]
+    # no Mod: correct the truncated quotient if there is a remainder of the other sign
+    div = ctx.make_node("Div", [x, y], op_name_scope=node.name).output[0]
+    mul = ctx.make_node("Mul", [div, y], op_name_scope=node.name).output[0]
+    rem = ctx.make_node("Sub", [x, mul], op_name_scope=node.name).output[0]
+    zero = ctx.make_const(utils.make_name("zero"), np.array(0, np.float32)).output[0]
+    neg = []
+    for value in [rem, y]:
+        value_float = ctx.make_node("Cast", [value], attr={"to": onnx_pb.TensorProto.FLOAT}).output[0]
+        neg.append(ctx.make_node("Less", [value_float, zero]).output[0])
+    not_exact = ctx.make_node("Cast", [rem], attr={"to": onnx_pb.TensorProto.BOOL}).output[0]
+    other_sign = ctx.make_node("Xor", neg).output[0]
+    wrong = ctx.make_node("And", [not_exact, other_sign]).output[0]
+    one = ctx.make_node("Cast", [wrong], attr={"to": dtype}).output[0]
+    one_mul = ctx.make_node("Mul", [one, y], op_name_scope=node.name).output[0]
+    return "Sub", [div, one], "Add", [rem, one_mul]
+
+
+SIGNED_INTS = [onnx_pb.TensorProto.INT8, onnx_pb.TensorProto.INT16, onnx_pb.TensorProto.INT32,
+               onnx_pb.TensorProto.INT64]
+
+
 @tf_op("FloorDiv")
 class FloorDiv:
     @classmethod
@@ -545,21 +574,37 @@ class FloorDiv:
             ctx.copy_dtype(node.output[0], floor_res.output[0])
             ctx.copy_shape(node.output[0], floor_res.output[0])
 
+    @classmethod
+    def version_7(cls, ctx, node, **kwargs):
+        if ctx.get_dtype(node.input[0]) not in SIGNED_INTS:
+            cls.version_6(ctx, node, **kwargs)
+            return
+        op_type, inputs, _, _ = make_floor_div_mod(ctx, node)
+        shapes = node.output_shapes
+        dtypes = node.output_dtypes
+        ctx.remove_node(node.name)
+        ctx.make_node(op_type, inputs, name=node.name, outputs=node.output, shapes=shapes, dtypes=dtypes)
+
 
 @tf_op("FloorMod")
 class FloorMod:
     @classmethod
     def version_7(cls, ctx, node, **kwargs):
         # T output = FloorMod(T x, T y)
-        div = ctx.make_node(op_type="Div", inputs=node.input)
+        shapes = node.output_shapes
+        dtypes = node.output_dtypes
         dtype = ctx.get_dtype(node.input[0])
+        if dtype in SIGNED_INTS:
+            _, _, op_type, inputs = make_floor_div_mod(ctx, node)
+            ctx.remove_node(node.name)
+            ctx.make_node(op_type, inputs, name=node.name, outputs=node.output, shapes=shapes, dtypes=dtypes)
+            return
+        div = ctx.make_node(op_type="Div", inputs=node.input)
         if dtype in [onnx_pb.TensorProto.FLOAT, onnx_pb.TensorProto.FLOAT16, onnx_pb.TensorProto.DOUBLE]:
             div = ctx.make_node(op_type="Floor", inputs=div.output)
 
         mul = ctx.make_node(op_type="Mul", inputs=[div.output[0], node.input[1]])
         # res node will take over shape&dtype&output connection info of original "node"
-        shapes = node.output_shapes
-        dtypes = node.output_dtypes
         ctx.remove_node(node.name)
         ctx.make_node(op_type="Sub", inputs=[node.input[0], mul.output[0]],
                       name=node.name, outputs=node.output, shapes=shapes, dtypes=dtypes)
-- 
2.43.0


From 942a8a0137c5eca3a701048e93465bf5881d2631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:04 +0000
Subject: [PATCH 063/123] fix: Cumprod needs the Loop of opset 11

---
 tf2onnx/onnx_opset/math.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tf2onnx/onnx_opset/math.py b/tf2onnx/onnx_opset/math.py
index 1e42535..59d4a65 100644
--- a/tf2onnx/onnx_opset/math.py
+++ b/tf2onnx/onnx_opset/math.py
@@ -627,8 +627,8 @@ class CumSum:
 @tf_op("Cumprod")
 class CumProd:
     @classmethod
-    def version_10(cls, ctx, node, **kwargs):
-        # opset 10 required for Slice to support starts/ends/axes/steps as inputs
+    def version_11(cls, ctx, node, **kwargs):
+        # opset 11 required for Pad to support pads as input
         axis_node = node.inputs[1]
         is_axis_const = axis_node.is_const()
         if is_axis_const: # we can compute axis value right now
-- 
2.43.0


From cabc7eec3404a5257659985c56933436e3f4d0e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:04 +0000
Subject: [PATCH 064/123] fix: Round before opset 11 did not round halves to
 even

---
 tf2onnx/onnx_opset/math.py | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/tf2onnx/onnx_opset/math.py b/tf2onnx/onnx_opset/math.py
index 59d4a65..0c2c565 100644
--- a/tf2onnx/onnx_opset/math.py
+++ b/tf2onnx/onnx_opset/math.py
@@ -836,6 +836,29 @@ class Round:
         node.type = "Floor"
         ctx.replace_inputs(node, [add_node])
 
+    @classmethod
+    def version_7(cls, ctx, node, **kwargs):
+        # floor(x), and one more if the rest is above one half, or is one half and floor(x) is odd
+        dtype = ctx.get_dtype(node.input[0])
+        np_dtype = utils.map_onnx_to_numpy_type(dtype)
+        shapes = node.output_shapes
+        dtypes = node.output_dtypes
+        inp = node.input[0]
+        half = ctx.make_const(utils.make_name("const_half"), np.array(0.5, np_dtype)).output[0]
+        two = ctx.make_const(utils.make_name("const_two"), np.array(2.0, np_dtype)).output[0]
+        floor = ctx.make_node("Floor", [inp], op_name_scope=node.name).output[0]
+        rest = ctx.make_node("Sub", [inp, floor]).output[0]
+        floor_half = ctx.make_node("Floor", [ctx.make_node("Mul", [floor, half]).output[0]]).output[0]
+        odd = ctx.make_node("Sub", [floor, ctx.make_node("Mul", [floor_half, two]).output[0]]).output[0]
+        above = ctx.make_node("Greater", [rest, half]).output[0]
+        at_least = ctx.make_node("Not", [ctx.make_node("Less", [rest, half]).output[0]]).output[0]
+        is_odd = ctx.make_node("Greater", [odd, half]).output[0]
+        tie_up = ctx.make_node("And", [at_least, is_odd]).output[0]
+        up = ctx.make_node("Or", [above, tie_up]).output[0]
+        up_num = ctx.make_node("Cast", [up], attr={"to": dtype}).output[0]
+        ctx.remove_node(node.name)
+        ctx.make_node("Add", [floor, up_num], name=node.name, outputs=node.output, shapes=shapes, dtypes=dtypes)
+
     @classmethod
     def version_11(cls, ctx, node, **kwargs):
         pass
-- 
2.43.0


From 4cea30e21113c539a0be62e77312d65d3ed914a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:04 +0000
Subject: [PATCH 065/123] fix: BitShift of int8 and int64 and right shifts of
 negative values

---
 tf2onnx/onnx_opset/math.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/tf2onnx/onnx_opset/math.py b/tf2onnx/onnx_opset/math.py
index 0c2c565..240396f 100644
--- a/tf2onnx/onnx_opset/math.py
+++ b/tf2onnx/onnx_opset/math.py
@@ -888,11 +888,26 @@ class BitShift:
         direction = dir_map[node.type]
         supported = [onnx_pb.TensorProto.UINT8, onnx_pb.TensorProto.UINT16,
                      onnx_pb.TensorProto.UINT32, onnx_pb.TensorProto.UINT64]
-        type_map = {onnx_pb.TensorProto.INT8: onnx_pb.TensorProto.UINT8,
+        # the wider type keeps the sign bits for an arithmetic right shift
+        type_map = {onnx_pb.TensorProto.INT8: onnx_pb.TensorProto.UINT32,
                     onnx_pb.TensorProto.INT16: onnx_pb.TensorProto.UINT32,
-                    onnx_pb.TensorProto.INT32: onnx_pb.TensorProto.UINT64}
+                    onnx_pb.TensorProto.INT32: onnx_pb.TensorProto.UINT64,
+                    onnx_pb.TensorProto.INT64: onnx_pb.TensorProto.UINT64}
         shapes = node.output_shapes
         dtypes = node.output_dtypes
+        if direction == "RIGHT" and dtypes[0] == onnx_pb.TensorProto.INT64:
+            # no wider type: a negative value x is shifted as -1 - x
+            zero = ctx.make_const(utils.make_name("zero"), np.array(0, np.int64)).output[0]
+            minus_one = ctx.make_const(utils.make_name("minus_one"), np.array(-1, np.int64)).output[0]
+            is_neg = ctx.make_node("Less", [node.input[0], zero]).output[0]
+            flipped = ctx.make_node("Sub", [minus_one, node.input[0]]).output[0]
+            non_neg = ctx.make_node("Where", [is_neg, flipped, node.input[0]]).output[0]
+            ctx.replace_input(node, node.input[0], non_neg, 0)
+            shifted = node.output[0]
+            flipped_back = ctx.make_node("Sub", [minus_one, shifted]).output[0]
+            result = ctx.make_node("Where", [is_neg, flipped_back, shifted], shapes=shapes, dtypes=dtypes)
+            ctx.insert_node_on_output(result, shifted)
+            ctx.replace_all_inputs(result.output[0], shifted, ops=[ctx.get_node_by_output(flipped_back)])
         ctx.remove_node(node.name)
 
         node = ctx.make_node("BitShift", inputs=node.input, outputs=node.output, name=node.name,
-- 
2.43.0


From 5a7fb951a16533f795ef587c76eb23b651479e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:04 +0000
Subject: [PATCH 066/123] fix: Atan2 declared the shape of one operand and
 turned scalars into vectors

---
 tf2onnx/onnx_opset/math.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tf2onnx/onnx_opset/math.py b/tf2onnx/onnx_opset/math.py
index 240396f..a8fca6f 100644
--- a/tf2onnx/onnx_opset/math.py
+++ b/tf2onnx/onnx_opset/math.py
@@ -1033,7 +1033,7 @@ class Atan2Op:
 
         onnx_dtype = ctx.get_dtype(node.input[0])
         utils.make_sure(onnx_dtype in supported_dtypes, "Unsupported input type.")
-        shape = ctx.get_shape(node.input[0])
+        shape = ctx.get_shape(node.output[0])
         np_dtype = utils.map_onnx_to_numpy_type(onnx_dtype)
 
         # sign part
@@ -1056,7 +1056,7 @@ class Atan2Op:
 
         one_node = ctx.make_const(
             utils.make_name("{}_one".format(node.name)),
-            np.array([1], dtype=np_dtype))
+            np.array(1, dtype=np_dtype))
 
         pib2_node = ctx.make_const(
             utils.make_name("{}_pi".format(node.name)),
-- 
2.43.0


From 515cc073a4bc7832136d8c23b028686fc47565ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:04 +0000
Subject: [PATCH 067/123] fix: AddN of integers was not convertible

---
 tf2onnx/onnx_opset/reduction.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/tf2onnx/onnx_opset/reduction.py b/tf2onnx/onnx_opset/reduction.py
index 7978e97..ffd0421 100644
--- a/tf2onnx/onnx_opset/reduction.py
+++ b/tf2onnx/onnx_opset/reduction.py
@@ -186,7 +186,21 @@ class AllAny:
 class AddN():
     @classmethod
     def version_6(cls, ctx, node, **kwargs):
-        node.type = "Sum"
+        if ctx.get_dtype(node.output[0]) not in [onnx_pb.TensorProto.INT32, onnx_pb.TensorProto.INT64]:
+            node.type = "Sum"
+            return
+        # Sum takes real numbers only
+        shapes = node.output_shapes
+        dtypes = node.output_dtypes
+        inputs = node.input.copy()
+        ctx.remove_node(node.name)
+        if len(inputs) == 1:
+            ctx.make_node("Identity", inputs, name=node.name, outputs=node.output, shapes=shapes, dtypes=dtypes)
+            return
+        result = inputs[0]
+        for inp in inputs[1:-1]:
+            result = ctx.make_node("Add", [result, inp], op_name_scope=node.name).output[0]
+        ctx.make_node("Add", [result, inputs[-1]], name=node.name, outputs=node.output, shapes=shapes, dtypes=dtypes)
 
 
 @tf_op(["SegmentSum", "SegmentProd", "SegmentMax", "SegmentMin", "SegmentMean",
-- 
2.43.0


From 16edf80c1f02dde54e57f021719fd1b4f2a6d8f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:04 +0000
Subject: [PATCH 068/123] fix: segment operators with empty segments, negative
 ids and integer data

---
 tf2onnx/onnx_opset/reduction.py | 40 ++++++++++++++++++++++++++-------
 1 file changed, 32 insertions(+), 8 deletions(-)

diff --git a/tf2onnx/onnx_opset/reduction.py b/tf2onnx/onnx_opset/reduction.py
index ffd0421..1edaf0a 100644
--- a/tf2onnx/onnx_opset/reduction.py
+++ b/tf2onnx/onnx_opset/reduction.py
@@ -211,6 +211,7 @@ class SegmentSum():
     @classmethod
     def any_version(cls, opset, ctx, node, **kwargs):
         node_inputs = node.input.copy()
+        is_unsorted = node.type.startswith("Unsorted")
         num_segments_specified = False
         num_segs_const = None
         if node.type.endswith("WithNumSegments") or node.type.startswith("Unsorted"):
@@ -257,20 +258,30 @@ class SegmentSum():
         elif node.type == "SegmentMax":
             onnx_op = "ReduceMax"
             if data_is_float:
-                identity_value = np.array('-inf', dtype=data_np_dtype)
+                # what TensorFlow gives for empty segments
+                identity_value = np.array(np.finfo(data_np_dtype).min if is_unsorted else '-inf', dtype=data_np_dtype)
             else:
-                identity_value = np.iinfo(data_np_dtype).min
+                identity_value = np.array(np.iinfo(data_np_dtype).min, dtype=data_np_dtype)
         elif node.type == "SegmentMin":
             onnx_op = "ReduceMin"
             if data_is_float:
-                identity_value = np.array('inf', dtype=data_np_dtype)
+                identity_value = np.array(np.finfo(data_np_dtype).max if is_unsorted else 'inf', dtype=data_np_dtype)
             else:
-                identity_value = np.iinfo(data_np_dtype).max
+                identity_value = np.array(np.iinfo(data_np_dtype).max, dtype=data_np_dtype)
 
         if not num_segments_specified:
             max_segment = GraphBuilder(ctx).make_reduce_max({"data": segment_inp, "axes": [0], "keepdims": 0})
             one_const = ctx.make_const(utils.make_name("const_one"), np.array(1, dtype=seg_np_dtype))
             num_segments = ctx.make_node("Add", [max_segment, one_const.output[0]]).output[0]
+        result_size = None
+        if is_unsorted:
+            # rows with a negative segment id are dropped: they go to one more segment that is cut off at the end
+            result_size = GraphBuilder(ctx).make_unsqueeze({'data': num_segments, 'axes': [0]})
+            zero_seg = ctx.make_const(utils.make_name("const_zero"), np.array(0, dtype=seg_np_dtype)).output[0]
+            one_seg = ctx.make_const(utils.make_name("const_one"), np.array(1, dtype=seg_np_dtype)).output[0]
+            is_neg = ctx.make_node("Less", [segment_inp, zero_seg]).output[0]
+            segment_inp = ctx.make_node("Where", [is_neg, num_segments, segment_inp]).output[0]
+            num_segments = ctx.make_node("Add", [num_segments, one_seg]).output[0]
         num_segments_unsq = GraphBuilder(ctx).make_unsqueeze({'data': num_segments, 'axes': [0]})
 
         seg_shape = ctx.make_node("Shape", [segment_inp]).output[0]
@@ -285,7 +296,8 @@ class SegmentSum():
 
         max_cnt = GraphBuilder(ctx).make_reduce_max({"data": seg_cnts_sorted, "axes": [0], "keepdims": True})
 
-        if node.type in ["SegmentMean", "SegmentSqrtN"]:
+        empty_is_zero = node.type in ["SegmentMax", "SegmentMin"] and not is_unsorted
+        if node.type in ["SegmentMean", "SegmentSqrtN"] or empty_is_zero:
             zero_tensor = helper.make_tensor("value", onnx_pb.TensorProto.INT64, dims=[1], vals=[0])
             if num_segs_const is not None:
                 zeros = ctx.make_const(utils.make_name("zeros"), np.zeros([num_segs_const], np.int64)).output[0]
@@ -301,9 +313,9 @@ class SegmentSum():
         else:
             scaling_amt = None
 
-        if scaling_amt is not None and num_segments_specified:
-            # If empty segments are possible, we must avoid division by zero
-            const_one_float = ctx.make_const(utils.make_name("const_one_float"), np.array(1, dtype=np.float32))
+        if scaling_amt is not None:
+            # Empty segments are possible, we must avoid division by zero
+            const_one_float = ctx.make_const(utils.make_name("const_one_float"), np.array(1, dtype=data_np_dtype))
             scaling_amt = ctx.make_node("Max", [scaling_amt, const_one_float.output[0]]).output[0]
 
 
@@ -353,6 +365,18 @@ class SegmentSum():
                     {'data': scaling_amt, 'axes': list(range(1, data_rank))})
             reduction_result = ctx.make_node("Div", [reduction_result, scaling_amt]).output[0]
 
+        if empty_is_zero:
+            not_empty = ctx.make_node("Cast", [seg_cnts], attr={'to': onnx_pb.TensorProto.BOOL}).output[0]
+            # Left align with the segments, the other dimensions broadcast
+            ones = ctx.make_node("Div", [identity_shape, identity_shape]).output[0]
+            not_empty_shape = ctx.make_node("Concat", [num_segments_unsq, ones], attr={'axis': 0}).output[0]
+            not_empty = ctx.make_node("Reshape", [not_empty, not_empty_shape]).output[0]
+            zero = ctx.make_const(utils.make_name("const_zero"), np.array(0, dtype=data_np_dtype)).output[0]
+            reduction_result = ctx.make_node("Where", [not_empty, reduction_result, zero]).output[0]
+        if is_unsorted:
+            reduction_result = GraphBuilder(ctx).make_slice(
+                {'data': reduction_result, 'starts': [0], 'ends': result_size, 'axes': [0]})
+
         ctx.replace_all_inputs(node.output[0], reduction_result)
         ctx.remove_node(node.name)
 
-- 
2.43.0


From a15b048a3809e1e58e23266b21eba792e1bc2030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:04 +0000
Subject: [PATCH 069/123] fix: TopK of types other than float

---
 tf2onnx/onnx_opset/tensor.py | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/tf2onnx/onnx_opset/tensor.py b/tf2onnx/onnx_opset/tensor.py
index da07549..f907352 100644
--- a/tf2onnx/onnx_opset/tensor.py
+++ b/tf2onnx/onnx_opset/tensor.py
@@ -1218,15 +1218,20 @@ class TopKV2:
         k = node.inputs[1].get_tensor_value()
         ctx.remove_node(topk_node_name)
         new_topk_name = utils.make_name(topk_node_name)
-        new_topk_node = ctx.make_node("TopK", [node.input[0]],
-                                      outputs=[topk_output1, utils.port_name(new_topk_name, 1)],
+        is_float = dtypes[0] == onnx_pb.TensorProto.FLOAT
+        topk_input = node.input[0]
+        if not is_float:
+            # opset-1 only supports float dtypes
+            topk_input = ctx.make_node("Cast", [topk_input], attr={"to": onnx_pb.TensorProto.FLOAT}).output[0]
+        new_topk_node = ctx.make_node("TopK", [topk_input],
+                                      outputs=[topk_output1 if is_float else utils.port_name(new_topk_name, 0),
+                                               utils.port_name(new_topk_name, 1)],
                                       name=new_topk_name, attr={"k": k},
-                                      shapes=shapes, dtypes=[dtypes[0], onnx_pb.TensorProto.INT64])
+                                      shapes=shapes, dtypes=[onnx_pb.TensorProto.FLOAT, onnx_pb.TensorProto.INT64])
 
-        if dtypes[0] != onnx_pb.TensorProto.FLOAT:
-            # opset-1 only supports float dtypes
-            ctx.insert_new_node_on_output("Cast", new_topk_node.input[0], to=onnx_pb.TensorProto.FLOAT)
-            ctx.insert_new_node_on_output("Cast", new_topk_node.output[0], to=dtypes[0])
+        if not is_float:
+            ctx.make_node("Cast", [new_topk_node.output[0]], outputs=[topk_output1], attr={"to": dtypes[0]},
+                          shapes=[shapes[0]], dtypes=[dtypes[0]])
         new_cast_name = utils.make_name(topk_node_name)
         ctx.make_node("Cast", [new_topk_node.output[1]], outputs=[topk_output2],
                       name=new_cast_name, attr={"to": onnx_pb.TensorProto.INT32},
@@ -1242,7 +1247,10 @@ class TopKV2:
         k_1d = GraphBuilder(ctx).make_unsqueeze({'data': cast.output[0], "axes": [0]}, return_node=True)
         ctx.replace_input(node, k_0d, k_1d.output[0], 1)
         # cast X if needed
-        if dtypes[0] != onnx_pb.TensorProto.FLOAT:
+        supported = [onnx_pb.TensorProto.FLOAT]
+        if opset >= 11:
+            supported.extend([onnx_pb.TensorProto.DOUBLE, onnx_pb.TensorProto.INT32, onnx_pb.TensorProto.INT64])
+        if dtypes[0] not in supported:
             # opset-10 supports types other than float but onnxruntime does not
             ctx.insert_new_node_on_input(node, "Cast", node.input[0], input_index=0, to=onnx_pb.TensorProto.FLOAT)
             ctx.insert_new_node_on_output("Cast", node.output[0], to=dtypes[0])
-- 
2.43.0


From ad00f616d5b7f09cfed243186ab3d36ff5595686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:12 +0000
Subject: [PATCH 070/123] fix: Slice to the end with a computed begin
 overflowed the end

---
 tf2onnx/onnx_opset/tensor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tf2onnx/onnx_opset/tensor.py b/tf2onnx/onnx_opset/tensor.py
index f907352..9db933a 100644
--- a/tf2onnx/onnx_opset/tensor.py
+++ b/tf2onnx/onnx_opset/tensor.py
@@ -345,7 +345,8 @@ class Slice:
             neg_one_val = np.array([-1]).astype(size_np_dtype)
             neg_one = ctx.make_const(utils.make_name("const"), neg_one_val).output[0]
 
-            int_max_val = np.array([utils.get_max_value(size_np_dtype)]).astype(size_np_dtype)
+            # half of the largest value, the starts are added to it
+            int_max_val = np.array([utils.get_max_value(size_np_dtype) // 2]).astype(size_np_dtype)
             int_max = ctx.make_const(utils.make_name("largest_int_val"), int_max_val).output[0]
 
             size_are_neg_one_flag = ctx.make_node("Equal", [neg_one, size]).output[0]
-- 
2.43.0


From afca159686c76dfedbb6c232df0301dce36569b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:12 +0000
Subject: [PATCH 071/123] fix: Roll with a shift vector of one element, and of
 an empty axis

---
 tf2onnx/onnx_opset/tensor.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/tf2onnx/onnx_opset/tensor.py b/tf2onnx/onnx_opset/tensor.py
index 9db933a..b1b8fff 100644
--- a/tf2onnx/onnx_opset/tensor.py
+++ b/tf2onnx/onnx_opset/tensor.py
@@ -387,9 +387,9 @@ class Roll:
             shifts_casted = node.input[1]
 
         if len(axes) == 1:
-            unsqueeze_node = GraphBuilder(ctx).make_unsqueeze(
-                {'data': shifts_casted, "axes": [0]}, op_name_scope=node.name, return_node=True)
-            shifts_split = [unsqueeze_node.output[0]]
+            # the shift is a scalar or a vector with one element
+            one_element = ctx.make_const(utils.make_name("shift_shape"), np.array([1], np.int64)).output[0]
+            shifts_split = [ctx.make_node("Reshape", [shifts_casted, one_element], op_name_scope=node.name).output[0]]
         else:
             shifts_split = ctx.make_node("Split", [shifts_casted], attr={'axis': 0, 'num_outputs': len(axes)},
                                          output_count=len(axes), op_name_scope=node.name).output
@@ -402,7 +402,12 @@ class Roll:
         for axis, shift in zip(axes, shifts_split):
             len_along_axis = GraphBuilder(ctx).make_slice(
                 {"data": shape_node.output[0], "ends": [axis + 1], "starts": [axis]})
-            shift_mod = ctx.make_node("Mod", [shift, len_along_axis]).output[0]
+            # the axis might be empty: divide by 1 then
+            is_empty = ctx.make_node("Not", [ctx.make_node("Cast", [len_along_axis], attr={"to": TensorProto.BOOL})
+                                             .output[0]]).output[0]
+            is_empty = ctx.make_node("Cast", [is_empty], attr={"to": TensorProto.INT64}).output[0]
+            divisor = ctx.make_node("Add", [len_along_axis, is_empty]).output[0]
+            shift_mod = ctx.make_node("Mod", [shift, divisor]).output[0]
             remaining_len = ctx.make_node("Sub", [len_along_axis, shift_mod], op_name_scope=node.name).output[0]
             axes_const = ctx.make_const(utils.make_name("axes_const"), np.array([axis], np.int64)).output[0]
             slice_one = ctx.make_node("Slice", [data, zero_const, remaining_len, axes_const], op_name_scope=node.name)
-- 
2.43.0


From 707b3fbab7ab8aed19dbc484bb9b54133eb32271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:12 +0000
Subject: [PATCH 072/123] fix: GatherV2 with negative batch_dims or axis

---
 tf2onnx/onnx_opset/tensor.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/tf2onnx/onnx_opset/tensor.py b/tf2onnx/onnx_opset/tensor.py
index b1b8fff..90261b2 100644
--- a/tf2onnx/onnx_opset/tensor.py
+++ b/tf2onnx/onnx_opset/tensor.py
@@ -467,13 +467,22 @@ class GatherV2:
     @classmethod
     def version_12(cls, ctx, node, **kwargs):
         batch_dims = node.get_attr_value("batch_dims", 0)
-        if batch_dims == 0:
-            cls.version_1(ctx, node, **kwargs)
-            return
         # If batch_dims is not zero, use GatherND to simulate Gather with batch dims.
         data_inp, indices_inp, axis_inp = node.input
         utils.make_sure(node.inputs[2].is_const(), "Axis of GatherV2 node must be constant")
         axis = node.inputs[2].get_tensor_value()
+        if batch_dims < 0:
+            indices_rank = ctx.get_rank(indices_inp)
+            utils.make_sure(indices_rank is not None, "Cannot convert GatherV2 with negative batch_dims and unknown rank")
+            batch_dims += indices_rank
+        if axis < 0:
+            data_rank = ctx.get_rank(data_inp)
+            utils.make_sure(data_rank is not None, "Cannot convert GatherV2 with negative axis and unknown rank")
+            axis += data_rank
+        node.set_attr("batch_dims", batch_dims)
+        if batch_dims == 0:
+            cls.version_1(ctx, node, **kwargs)
+            return
         ctx.remove_input(node, axis_inp, 2)
         if ctx.get_dtype(indices_inp) != TensorProto.INT64:
             indices_inp = ctx.make_node("Cast", [indices_inp], attr={'to': TensorProto.INT64}).output[0]
-- 
2.43.0


From 8408383c8e4dffaa01fd813fab0229ece6f4c132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:12 +0000
Subject: [PATCH 073/123] fix: ScatterNd has to add duplicated updates

---
 tf2onnx/onnx_opset/tensor.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/tf2onnx/onnx_opset/tensor.py b/tf2onnx/onnx_opset/tensor.py
index 90261b2..c53bf64 100644
--- a/tf2onnx/onnx_opset/tensor.py
+++ b/tf2onnx/onnx_opset/tensor.py
@@ -674,6 +674,14 @@ class ScatterND:
         # reorder inputs to match onnx
         ctx.replace_inputs(node, [node.input[2], node.input[0], node.input[1]])
 
+    @classmethod
+    def version_16(cls, ctx, node, **kwargs):
+        cls.version_11(ctx, node, **kwargs)
+        if ctx.get_dtype(node.input[2]) in [TensorProto.FLOAT, TensorProto.DOUBLE, TensorProto.FLOAT16,
+                                            TensorProto.INT32, TensorProto.INT64]:
+            # updates of the same element are summed
+            node.set_attr("reduction", 'add')
+
 
 @tf_op("TensorScatterAdd", onnx_op="ScatterND")
 class TensorScatterAdd:
-- 
2.43.0


From a703fad2ae14022ef90f3a35da0f9fe775274abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:12 +0000
Subject: [PATCH 074/123] fix: SplitV with a negative size along an axis of
 unknown size

---
 tf2onnx/onnx_opset/tensor.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tf2onnx/onnx_opset/tensor.py b/tf2onnx/onnx_opset/tensor.py
index c53bf64..f3b0dc7 100644
--- a/tf2onnx/onnx_opset/tensor.py
+++ b/tf2onnx/onnx_opset/tensor.py
@@ -770,6 +770,8 @@ class SplitV:
         if -1 in split:
             # negative split = use the remaining size
             shape = ctx.get_shape(node.input[0])
+            utils.make_sure(shape is not None and shape[split_dims] >= 0,
+                            "SplitV with negative size requires a known size of the axis for opset < 13")
             final_sum = shape[split_dims]
             sums = sum([i for i in split if i >= 0])
             for i, v in enumerate(split):
-- 
2.43.0


From a5ef2d0ac34e72204ade082583e3308c50104603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:12 +0000
Subject: [PATCH 075/123] fix: StridedSlice with new axis, ellipsis, shrink and
 begin/end masks together

---
 tf2onnx/onnx_opset/tensor.py | 481 ++++++++++++-----------------------
 1 file changed, 159 insertions(+), 322 deletions(-)

diff --git a/tf2onnx/onnx_opset/tensor.py b/tf2onnx/onnx_opset/tensor.py
index f3b0dc7..89794fb 100644
--- a/tf2onnx/onnx_opset/tensor.py
+++ b/tf2onnx/onnx_opset/tensor.py
@@ -848,129 +848,114 @@ class ExpandDims:
 
 @tf_op("StridedSlice")
 class StridedSlice:
+    MAX_SIZE = 1000000000
+
+    @classmethod
+    def get_masks(cls, node):
+        """Returns the attributes begin_mask, end_mask, ellipsis_mask, new_axis_mask and shrink_axis_mask."""
+        names = ["begin_mask", "end_mask", "ellipsis_mask", "new_axis_mask", "shrink_axis_mask"]
+        return [node.get_attr_value(name, 0) for name in names]
+
+    @classmethod
+    def get_axes(cls, ctx, node, spec_size):
+        """
+        Finds out what the items of begin/end/strides stand for. Returns
+            items: indices of the items that slice an axis
+            axes: axes of the input that those items slice
+            shrink_axes: axes of the input that are removed after slicing
+            new_axes: axes of the output that are new
+        """
+        _, _, ellipsis_mask, new_axis_mask, shrink_axis_mask = cls.get_masks(node)
+        is_ellipsis = [(ellipsis_mask >> idx) & 1 == 1 for idx in range(spec_size)]
+        # ellipsis takes precedence over new_axis and new_axis takes precedence over shrink_axis
+        is_new = [(new_axis_mask >> idx) & 1 == 1 and not is_ellipsis[idx] for idx in range(spec_size)]
+        items, axes, shrink_axes, new_axes = [], [], [], []
+        axis, out_axis = 0, 0
+        for idx in range(spec_size):
+            if is_ellipsis[idx]:
+                # An ellipsis implicitly creates as many range specifications as necessary to fully specify
+                # the sliced range for every dimension.
+                # For example for a 4-dimensional tensor foo the slice foo[2, ..., 5:8] implies foo[2, :, :, 5:8]
+                input_shape = ctx.get_shape(node.input[0])
+                utils.make_sure(
+                    input_shape is not None,
+                    "StridedSlice op {} requires the shape of input".format(node.name)
+                )
+                gap = len(input_shape) - (spec_size - sum(is_ellipsis) - sum(is_new))
+                axis += gap
+                out_axis += gap
+            elif is_new[idx]:
+                new_axes.append(out_axis)
+                out_axis += 1
+            else:
+                items.append(idx)
+                axes.append(axis)
+                if (shrink_axis_mask >> idx) & 1:
+                    shrink_axes.append(axis)
+                else:
+                    out_axis += 1
+                axis += 1
+        return items, axes, shrink_axes, new_axes
+
+    @classmethod
+    def make_nodes(cls, ctx, node, slice_inputs, shrink_axes, new_axes):
+        """Replaces the node, the axes that onnx slice op can't remove or add need a squeeze and an unsqueeze op."""
+        out_dtype = ctx.get_dtype(node.output[0])
+        out_shape = ctx.get_shape(node.output[0])
+        ctx.remove_node(node.name)
+        steps = []
+        # onnx slice as of opset 7 does only take float tensors ... cast if needed
+        needs_cast = ctx.opset < 9 and ctx.get_dtype(node.input[0]) != onnx_pb.TensorProto.FLOAT
+        if needs_cast:
+            steps.append(("Cast", {"to": onnx_pb.TensorProto.FLOAT}))
+        if slice_inputs is not None:
+            steps.append(("Slice", slice_inputs))
+        if shrink_axes:
+            steps.append(("Squeeze", {"axes": shrink_axes}))
+        if new_axes:
+            steps.append(("Unsqueeze", {"axes": new_axes}))
+        if needs_cast:
+            steps.append(("Cast", {"to": ctx.get_dtype(node.input[0])}))
+        steps = steps or [("Identity", {})]
+
+        builder = GraphBuilder(ctx)
+        data = node.input[0]
+        for i, (op_type, args) in enumerate(steps):
+            is_last = i == len(steps) - 1
+            kwargs = {"name": node.name if is_last else utils.make_name(node.name)}
+            if is_last:
+                kwargs.update(shapes=[out_shape], dtypes=[out_dtype])
+            outputs = {"outputs": node.output} if is_last else {}
+            if op_type in ["Cast", "Identity"]:
+                data = ctx.make_node(op_type, [data], attr=args, **outputs, **kwargs).output[0]
+            else:
+                make = {"Slice": builder.make_slice, "Squeeze": builder.make_squeeze,
+                        "Unsqueeze": builder.make_unsqueeze}[op_type]
+                data = make({"data": data, **args, **outputs}, **kwargs)
+
     @classmethod
     def version_1(cls, ctx, node, **kwargs):
         # for now we implement common cases. Things like strides!=1 are not mappable to onnx.
-        not_supported_attr = ["new_axis_mask"]
-        for attr_name in not_supported_attr:
-            attr = node.get_attr(attr_name)
-            if attr is not None and attr.i != 0:
-                raise ValueError("StridedSlice: attribute " + attr_name + " not supported")
-
-        onnx_dtype = ctx.get_dtype(node.input[1])
-        np_dtype = utils.ONNX_TO_NUMPY_DTYPE[onnx_dtype]
-        max_size = np.iinfo(np_dtype).max
         begin = node.inputs[1].get_tensor_value()
         end = node.inputs[2].get_tensor_value()
         strides = node.inputs[3].get_tensor_value()
-        end_mask = node.get_attr("end_mask")
-        end_mask = end_mask.i if end_mask is not None else 0
-        begin_mask = node.get_attr("begin_mask")
-        begin_mask = begin_mask.i if begin_mask is not None else 0
-        shrink_axis_mask = node.get_attr("shrink_axis_mask")
-        shrink_axis_mask = shrink_axis_mask.i if shrink_axis_mask is not None else 0
-        ellipsis_mask = node.get_attr("ellipsis_mask")
-        ellipsis_mask = ellipsis_mask.i if ellipsis_mask is not None else 0
+        begin_mask, end_mask, _, _, shrink_axis_mask = cls.get_masks(node)
+        max_size = np.iinfo(utils.ONNX_TO_NUMPY_DTYPE[ctx.get_dtype(node.input[1])]).max
+        items, axes, shrink_axes, new_axes = cls.get_axes(ctx, node, len(begin))
+
         new_begin = []
         new_end = []
-        axes = []
-        # onnx slice op can't remove a axis, track axis and add a squeeze op if needed
-        needs_squeeze = []
-        # ellipsis: one bit at most can be 1. An ellipsis implicitly creates as many range specifications as
-        # necessary to fully specify the sliced range for every dimension.
-        # For example for a 4-dimensional tensor foo the slice foo[2, ..., 5:8] implies foo[2, :, :, 5:8]
-        # NOTE: we ignore those axes denoted by ellipsis using `axes` attribute
-        ellipsis_gap = 0
-        for idx, begin_item in enumerate(begin):
+        for idx in items:
             if strides[idx] != 1:
                 raise ValueError("StridedSlice: only strides=1 is supported")
-            if (ellipsis_mask >> idx) & 1:
-                input_shape = ctx.get_shape(node.input[0])
-                utils.make_sure(
-                    input_shape is not None,
-                    "StridedSlice op {} requires the shape of input".format(node.name)
-                )
-                ellipsis_gap = len(input_shape) - len(begin)
-                continue
-
-            # ignore ellipsis axes
-            axes.append(idx + ellipsis_gap)
-            end_item = end[idx]
-
-            # an implicit condition is stride == 1 (checked in above)
-            if begin_item < 0 and end_item == 0:
-                end_item = max_size
-
-            mask = (shrink_axis_mask >> idx) & 1
-            if mask != 0:
-                new_begin.append(begin_item)
-                end_item = begin_item + 1 if begin_item != -1 else max_size
-                new_end.append(end_item)
-                needs_squeeze.append(idx + ellipsis_gap)
+            if (shrink_axis_mask >> idx) & 1:
+                new_begin.append(begin[idx])
+                new_end.append(begin[idx] + 1 if begin[idx] != -1 else max_size)
                 continue
-
-            mask = (begin_mask >> idx) & 1
-            if mask != 0:
-                new_begin.append(0)
-            else:
-                new_begin.append(begin_item)
-
-            mask = (end_mask >> idx) & 1
-            if mask != 0:
-                new_end.append(max_size)
-            else:
-                new_end.append(end_item)
-
-        out_dtypes = [ctx.get_dtype(node.output[0])]
-        out_shapes = [ctx.get_shape(node.output[0])]
-        ctx.remove_node(node.name)
-
-        attr = {"starts": new_begin, "ends": new_end, "axes": axes}
-        inputs_map = {"data": node.input[0], **attr}
-        kwargs = {**inputs_map, "outputs": node.output}
-        if len(axes) > 0:
-            node = GraphBuilder(ctx).make_slice(
-                kwargs, name=node.name, dtypes=out_dtypes, shapes=out_shapes, return_node=True)
-        else:
-            node = ctx.make_node("Identity", [node.input[0]], name=node.name, outputs=node.output,
-                                 dtypes=out_dtypes, shapes=out_shapes)
-        nodes = [node]
-        if needs_squeeze:
-            # insert_new_node_on_output(self, op_type, output_name=None, name=None, inputs=None, domain=None, **kwargs)
-            # ctx.insert_new_node_on_output("Squeeze", node.output[0], name)
-            name = utils.make_name(node.name)
-            shape = ctx.get_shape(node.output[0])
-            dtype = ctx.get_dtype(node.output[0])
-            squeeze_node = GraphBuilder(ctx).make_squeeze(
-                {"axes": needs_squeeze, 'data': node.output[0]}, name=name,
-                dtypes=[dtype], shapes=[shape], return_node=True)
-            ctx.insert_node_on_output(squeeze_node)
-
-            nodes.append(squeeze_node)
-            ctx.update_node_shape_dtype(node, override=True)
-
-        # onnx slice as of opset 7 does only take float tensors ... cast if needed
-        input_dtype = ctx.get_dtype(node.input[0])
-        if ctx.opset < 9:
-            if input_dtype != onnx_pb.TensorProto.FLOAT:
-                if node.inputs[0].type == "Cast" and len(ctx.find_output_consumers(node.inputs[0].output[0])) == 1:
-                    # override the previous cast
-                    cast_node = node.inputs[0]
-                    cast_node.set_attr("to", onnx_pb.TensorProto.FLOAT)
-                else:
-                    cast_node = ctx.insert_new_node_on_input(node, "Cast", node.input[0],
-                                                             to=onnx_pb.TensorProto.FLOAT)
-                    nodes.insert(0, cast_node)
-                ctx.set_dtype(cast_node.output[0], onnx_pb.TensorProto.FLOAT)
-                ctx.copy_shape(node.input[0], cast_node.output[0])
-                # undo the cast afer slice
-                name = utils.make_name(node.name)
-                cast_node = ctx.insert_new_node_on_output("Cast", nodes[-1].output[0], name,
-                                                          to=input_dtype)
-                ctx.set_dtype(cast_node.output[0], input_dtype)
-                ctx.copy_shape(node.output[0], cast_node.output[0])
-                nodes.append(cast_node)
-            ctx.set_dtype(node.output[0], onnx_pb.TensorProto.FLOAT)
+            new_begin.append(0 if (begin_mask >> idx) & 1 else begin[idx])
+            new_end.append(max_size if (end_mask >> idx) & 1 else end[idx])
+        slice_inputs = {"starts": new_begin, "ends": new_end, "axes": axes} if axes else None
+        cls.make_nodes(ctx, node, slice_inputs, shrink_axes, new_axes)
 
     @classmethod
     def any_version_after10(cls, opset, ctx, node, **kwargs):
@@ -979,225 +964,77 @@ class StridedSlice:
         #                 @int shrink_axis_mask, @int new_axis_mask)
         # T output = Slice(T input, Tind starts, Tind ends, Tind axes, Tind steps)
         # "ends" are exclusive, "axes" and "steps" are optional, their default val are [0, ...] and 1
-        input_x = node.input[0]
-        begin = node.input[1]
-        end = node.input[2]
-        strides = node.input[3]
-        new_axis_mask = node.get_attr("new_axis_mask")
-        new_axis_mask = new_axis_mask.i if new_axis_mask is not None else 0
-
+        begin, end, strides = node.input[1:4]
         if ctx.is_const(begin) and ctx.is_const(end) and ctx.is_const(strides) \
-                and all(val == 1 for val in ctx.get_tensor_value(strides)) \
-                and new_axis_mask == 0:
+                and all(val == 1 for val in ctx.get_tensor_value(strides)):
             cls.version_1(ctx, node, **kwargs)
             return
 
-        onnx_dtype = ctx.get_dtype(node.input[1])
-        np_dtype = utils.ONNX_TO_NUMPY_DTYPE[onnx_dtype]
-
-        # NOTE: Max op only supports float32, deal with overflow when cast back to int32
-        # enable it after Max supports int32 and int64
-        # max_size = utils.get_max_value(np_dtype)
-        # min_size = utils.get_min_value(np_dtype)
-        max_size = 1e9
-        min_size = -1e9
-
-        end_mask = node.get_attr("end_mask")
-        end_mask = end_mask.i if end_mask is not None else 0
-        begin_mask = node.get_attr("begin_mask")
-        begin_mask = begin_mask.i if begin_mask is not None else 0
-        ellipsis_mask = node.get_attr("ellipsis_mask")
-        ellipsis_mask = ellipsis_mask.i if ellipsis_mask is not None else 0
-        shrink_axis_mask = node.get_attr("shrink_axis_mask")
-        shrink_axis_mask = shrink_axis_mask.i if shrink_axis_mask is not None else 0
-
-        param_shape = ctx.get_shape(node.input[1]) or \
-                      ctx.get_shape(node.input[2]) or \
-                      ctx.get_shape(node.input[3])
+        param_shape = ctx.get_shape(begin)
+        for inp in [end, strides]:
+            if param_shape is None or param_shape[0] == -1:
+                param_shape = ctx.get_shape(inp) or param_shape
         utils.make_sure(
-            param_shape is not None,
+            param_shape is not None and param_shape[0] != -1,
             "StridedSlice op {} requires the shape of begin/end/strides".format(node.name)
         )
         param_rank = param_shape[0]
+        begin_mask, end_mask, _, _, shrink_axis_mask = cls.get_masks(node)
+        items, axes, shrink_axes, new_axes = cls.get_axes(ctx, node, param_rank)
+        if not axes:
+            cls.make_nodes(ctx, node, None, shrink_axes, new_axes)
+            return
 
-        if new_axis_mask != 0:
-            unqueeze_at = []
-            ellipsis_gap = 0
-            num_new = 0
-            for bit in range(32):
-                if (new_axis_mask >> bit) & 1 == 1:
-                    num_new += 1
-                if (ellipsis_mask >> bit) & 1:
-                    input_shape = ctx.get_shape(input_x)
-                    # calculate what rank for ellipsis: input rank - (being rank - all new_axis - 1)
-                    ellipsis_gap = len(input_shape) - param_rank + num_new + 1
-                if (new_axis_mask >> bit) & 1 == 1:
-                    unqueeze_at.append(bit + ellipsis_gap)
-                    begin_mask |= 1 << bit
-                    end_mask |= 1 << bit
-
-            if ellipsis_mask:
-                unqueeze_at = []
-                ellipsis_gap = 0
-                num_new = 0
-                end_mask = node.get_attr("end_mask")
-                end_mask = end_mask.i if end_mask is not None else 0
-                begin_mask = node.get_attr("begin_mask")
-                begin_mask = begin_mask.i if begin_mask is not None else 0
-
-                for bit in range(32):
-                    new_axis_flag = (new_axis_mask >> bit) & 1
-                    ellipsis_flag = (ellipsis_mask >> bit) & 1
-                    num_new += not ellipsis_flag and new_axis_flag
-
-                for bit in range(32):
-                    if (ellipsis_mask >> bit) & 1:
-                        ellipsis_gap = len(ctx.get_shape(input_x)) - param_rank + num_new + 1
-                    elif (new_axis_mask >> bit) & 1:
-                        effective_bit = bit if not ellipsis_gap else bit + ellipsis_gap - 1
-                        unqueeze_at.append(effective_bit)
-                        begin_mask |= 1 << bit
-                        end_mask |= 1 << bit
-
-            input_x = GraphBuilder(ctx).make_unsqueeze(
-                {'data': input_x, 'axes': unqueeze_at})
-
-
-        # use in onnx graph to mask begin
-        new_begin_mask = [1] * param_rank
-        # use in onnx graph to mask end
-        new_end_mask = [min_size] * param_rank
-        # for shrink mask, if shrink mask is 1, set stride to be max_size
-        shrink_strided_mask = [min_size] * param_rank
-        axes = []
-        # onnx slice op can't remove a axis, track axis and add a squeeze op if needed
-        needs_squeeze = []
-        ellipsis_gap = 0
-        for idx in range(param_rank):
-            if (ellipsis_mask >> idx) & 1:
-                input_shape = ctx.get_shape(input_x)
-                utils.make_sure(
-                    input_shape is not None,
-                    "StridedSlice op {} requires the shape of input".format(node.name)
-                )
-                ellipsis_gap = len(input_shape) - param_rank
-                # handle the redundant param
-                new_begin_mask[idx] = 0
-                new_end_mask[idx] = max_size
-                axes.append(idx)
-                continue
-
-            # ignore ellipsis axes
-            axes.append(idx + ellipsis_gap)
-
-            mask = (shrink_axis_mask >> idx) & 1
-            if mask != 0:
-                shrink_strided_mask[idx] = max_size
-                new_end_mask[idx] = max_size
-                needs_squeeze.append(idx + ellipsis_gap)
-                continue
-
-            mask = (begin_mask >> idx) & 1
-            if mask != 0:
-                new_begin_mask[idx] = 0
-
-            mask = (end_mask >> idx) & 1
-            if mask != 0:
-                new_end_mask[idx] = max_size
-
-        out_dtypes = [ctx.get_dtype(node.output[0])]
-        out_shapes = [ctx.get_shape(node.output[0])]
-        ctx.remove_node(node.name)
-
-        # mask begin
-        new_begin_mask = np.array(new_begin_mask, dtype=np_dtype)
-        if not np.all(new_begin_mask == 1):
-            if ctx.is_const(begin) and ctx.is_const(strides):
-                new_begin_vals = np.copy(ctx.get_tensor_value(begin, as_list=False))
-                strides_vals = ctx.get_tensor_value(strides, as_list=False)
-                idx1 = np.where(new_begin_mask == 0)
-                idx2 = np.where(strides_vals < 0)
-                idx3 = np.intersect1d(idx1, idx2)
-                new_begin_vals[idx3] = max_size
-                begin = ctx.make_const(utils.make_name("begin_masked"), new_begin_vals).output[0]
-            else:
-                begin_mask_const = ctx.make_const(utils.make_name("begin_mask"), np.equal(new_begin_mask, 0))
-                zero_const = ctx.make_const(utils.make_name("zero_const"), np.zeros(1, dtype=np_dtype))
-                max_const = ctx.make_const(utils.make_name("max_const"), np.array(max_size, dtype=np_dtype))
-                op1 = ctx.make_node("Less", [strides, zero_const.output[0]], op_name_scope=node.name)
-                op2 = ctx.make_node("And", [op1.output[0], begin_mask_const.output[0]], op_name_scope=node.name)
-                begin = ctx.make_node("Where", [op2.output[0], max_const.output[0], begin],
-                                      op_name_scope=node.name).output[0]
-
-        # mask end
-        new_end_mask = np.array(new_end_mask, dtype=np_dtype)
-        if not np.all(new_end_mask == min_size):
-            if ctx.is_const(end) and ctx.is_const(strides):
-                new_end_mask = np.maximum(ctx.get_tensor_value(end, as_list=False), new_end_mask)
-                idx = np.where(new_end_mask == max_size)
-                sign = np.sign(ctx.get_tensor_value(strides, as_list=False))[idx]
-                new_end_mask[idx] = new_end_mask[idx] * sign
-                end = ctx.make_const(utils.make_name("end_masked"), new_end_mask).output[0]
-            else:
-                # Overlay new_end_mask with specified end values.
-                # Adjust max_size to min_size if steps are < 0
-                max_const = ctx.make_const(utils.make_name("max_const"), np.array(max_size, dtype=np_dtype))
-                min_const = ctx.make_const(utils.make_name("min_const"), np.array(min_size, dtype=np_dtype))
-                zero_const = ctx.make_const(utils.make_name("zero_const"), np.zeros(1, dtype=np_dtype))
-                end_mask_const = ctx.make_const(utils.make_name("end_mask"), np.array(new_end_mask, dtype=np_dtype))
-                outputname = utils.make_name("{}__newendmask".format(node.name))
-                new_end_mask = math.make_min_or_max_op(ctx, "Max", [end, end_mask_const.output[0]],
-                                                       [outputname])
-                op1 = ctx.make_node("Less", [strides, zero_const.output[0]], op_name_scope=node.name)
-                op2 = ctx.make_node("Equal", [new_end_mask.output[0], max_const.output[0]], op_name_scope=node.name)
-                op3 = ctx.make_node("And", [op2.output[0], op1.output[0]], op_name_scope=node.name)
-                end = ctx.make_node("Where", [op3.output[0], min_const.output[0], new_end_mask.output[0]],
-                                    op_name_scope=node.name).output[0]
-
-        # mask strides for shrink
-        shrink_strided_mask = np.array(shrink_strided_mask, dtype=np_dtype)
-        if not np.all(shrink_strided_mask == min_size):
-            if ctx.is_const(strides):
-                strides = ctx.make_const(
-                    utils.make_name("strides_masked"),
-                    np.maximum(ctx.get_tensor_value(strides, as_list=False), shrink_strided_mask)
-                ).output[0]
-            else:
-                shrink_strided_mask_const = ctx.make_const(
-                    utils.make_name("strides_mask"),
-                    np.array(shrink_strided_mask, dtype=np_dtype)
-                )
-                strides_output = utils.make_name("{}__strides".format(node.name))
-                math.make_min_or_max_op(
-                    ctx, "Max",
-                    [strides, shrink_strided_mask_const.output[0]],
-                    [strides_output]
-                )
-                strides = strides_output
-        # create axes input
-        axes_const = ctx.make_const(
-            utils.make_name("slice_axes"),
-            np.array(axes, dtype=np_dtype)
-        )
-        axes_output = axes_const.output[0]
-
-        inputs_map = {
-            "data": input_x,
-            "starts": begin,
-            "ends": end,
-            "steps": strides,
-            "axes": axes_output
-        }
-        kwargs = {**inputs_map, "outputs": node.output}
-        node = GraphBuilder(ctx).make_slice(kwargs, name=node.name, dtypes=out_dtypes, shapes=out_shapes)
-        node = ctx.get_node_by_output(node)
-        if needs_squeeze:
-            squeeze_node = GraphBuilder(ctx).make_squeeze(
-                {"axes": needs_squeeze, "data": node.output[0]}, name=node.child_name(), return_node=True)
-            ctx.insert_node_on_output(squeeze_node, node.output[0])
-            input_dtype = ctx.get_dtype(node.output[0])
-            ctx.set_dtype(squeeze_node.output[0], input_dtype)
-            ctx.copy_shape(node.output[0], squeeze_node.output[0])
+        onnx_dtype = ctx.get_dtype(begin)
+        if onnx_dtype not in [TensorProto.INT32, TensorProto.INT64]:
+            onnx_dtype = TensorProto.INT64
+            begin, end, strides = [ctx.make_node("Cast", [inp], attr={"to": onnx_dtype}).output[0]
+                                   for inp in [begin, end, strides]]
+        np_dtype = utils.ONNX_TO_NUMPY_DTYPE[onnx_dtype]
+        is_shrink = np.array([(shrink_axis_mask >> idx) & 1 == 1 for idx in items])
+        is_begin_masked = np.array([(begin_mask >> idx) & 1 == 1 for idx in items]) & ~is_shrink
+        is_end_masked = np.array([(end_mask >> idx) & 1 == 1 for idx in items]) & ~is_shrink
+
+        def const(name, value, dtype=np_dtype):
+            return ctx.make_const(utils.make_name(name), np.array(value, dtype=dtype)).output[0]
+
+        def select(cond, if_true, if_false):
+            if all(ctx.is_const(inp) for inp in [cond, if_true, if_false]):
+                return const("slice_const", np.where(*[ctx.get_tensor_value(inp, as_list=False)
+                                                       for inp in [cond, if_true, if_false]]))
+            return ctx.make_node("Where", [cond, if_true, if_false], op_name_scope=node.name).output[0]
+
+        # drop the items that do not slice an axis
+        if items != list(range(param_rank)):
+            items_const = const("slice_items", items, np.int64)
+            begin, end, strides = [ctx.make_node("Gather", [inp, items_const], attr={"axis": 0},
+                                                 op_name_scope=node.name).output[0]
+                                   if not ctx.is_const(inp) else
+                                   const("slice_items", ctx.get_tensor_value(inp, as_list=False)[items])
+                                   for inp in [begin, end, strides]]
+
+        # masked begin and end depend on the direction
+        if ctx.is_const(strides):
+            is_reversed = ctx.get_tensor_value(strides, as_list=False) < 0
+            first = const("slice_first", np.where(is_reversed, cls.MAX_SIZE, 0))
+            last = const("slice_last", np.where(is_reversed, -cls.MAX_SIZE, cls.MAX_SIZE))
+        elif is_begin_masked.any() or is_end_masked.any():
+            is_reversed = ctx.make_node("Less", [strides, const("zero_const", 0)], op_name_scope=node.name).output[0]
+            first = select(is_reversed, const("max_const", cls.MAX_SIZE), const("zero_const", 0))
+            last = select(is_reversed, const("min_const", -cls.MAX_SIZE), const("max_const", cls.MAX_SIZE))
+        if is_begin_masked.any():
+            begin = select(const("begin_mask", is_begin_masked, bool), first, begin)
+        if is_end_masked.any():
+            end = select(const("end_mask", is_end_masked, bool), last, end)
+        if is_shrink.any():
+            # a stride larger than the axis selects one element
+            shrink_const = const("shrink_mask", is_shrink, bool)
+            max_const = const("max_const", cls.MAX_SIZE)
+            end = select(shrink_const, max_const, end)
+            strides = select(shrink_const, max_const, strides)
+
+        slice_inputs = {"starts": begin, "ends": end, "steps": strides, "axes": const("slice_axes", axes)}
+        cls.make_nodes(ctx, node, slice_inputs, shrink_axes, new_axes)
 
     @classmethod
     def version_10(cls, ctx, node, **kwargs):
-- 
2.43.0


From e8fd517cb81574f845aedcb48c3d7d9e3f448d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:12 +0000
Subject: [PATCH 076/123] fix: OneHot of negative and out of range indices

---
 tf2onnx/onnx_opset/tensor.py | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/tf2onnx/onnx_opset/tensor.py b/tf2onnx/onnx_opset/tensor.py
index 89794fb..94e0680 100644
--- a/tf2onnx/onnx_opset/tensor.py
+++ b/tf2onnx/onnx_opset/tensor.py
@@ -1240,18 +1240,21 @@ class OneHot:
         node.set_attr("axis", 0)
         depth = node.inputs[1].get_tensor_value()
         on_val = node.inputs[2].get_tensor_value(as_list=False)
-        on = on_val.tolist()
-        off = node.inputs[3].get_tensor_value()
-        eye = np.eye(depth, dtype=on_val.dtype)
-        if on != 0:
-            eye[eye == 1] = on
-            eye[eye == 0] = off
-        else:
-            eye[eye == 0] = off
-            eye[eye == 1] = on
+        off_val = node.inputs[3].get_tensor_value(as_list=False)
+        # indices that are out of range select one of the extra rows that only contain the off value
+        eye = np.where(np.eye(depth + 2, dtype=bool)[:, 1:-1], on_val, off_val).astype(on_val.dtype)
 
         const_name = utils.make_name(node.name)
         ctx.make_const(const_name, eye)
+        row = ctx.make_node("Cast", [indices_name], attr={"to": TensorProto.FLOAT}).output[0]
+        max_row = ctx.make_const(utils.make_name("max_row"), np.array([depth], np.float32)).output[0]
+        min_row = ctx.make_const(utils.make_name("min_row"), np.array([-1], np.float32)).output[0]
+        row_offset = ctx.make_const(utils.make_name("row_offset"), np.array([1], np.float32)).output[0]
+        for op_type, bound in [("Min", max_row), ("Max", min_row)]:
+            row = math.make_min_or_max_op(ctx, op_type, [row, bound], [utils.make_name("row")], [indices_shape],
+                                          [TensorProto.FLOAT]).output[0]
+        row = ctx.make_node("Add", [row, row_offset]).output[0]
+        indices_name = ctx.make_node("Cast", [row], attr={"to": TensorProto.INT64}).output[0]
         # setup gather inputs
         ctx.replace_inputs(node, [const_name, indices_name])
         node.type = "Gather"
@@ -1300,9 +1303,13 @@ class OneHot:
             if node.get_attr('axis').i == 0:
                 node.set_attr('axis', -1)
 
-        if ctx.is_target(constants.TARGET_RS6) \
-                and ctx.get_dtype(indices) != onnx_pb.TensorProto.INT64:
+        if ctx.get_dtype(indices) != onnx_pb.TensorProto.INT64:
             indices = ctx.make_node("Cast", [indices], attr={"to": onnx_pb.TensorProto.INT64}).output[0]
+        # tensorflow has no negative indices, move them out of range
+        const_zero = ctx.make_const(utils.make_name("const_zero"), np.array(0, np.int64)).output[0]
+        is_negative = ctx.make_node("Less", [indices, const_zero]).output[0]
+        depth_int64 = ctx.make_node("Cast", [depth], attr={"to": onnx_pb.TensorProto.INT64}).output[0]
+        indices = ctx.make_node("Where", [is_negative, depth_int64, indices]).output[0]
         ctx.replace_input(node, node.input[0], indices, 0)
 
         if ctx.is_target(constants.TARGET_RS6) \
-- 
2.43.0


From b909ff7e0920fe29d5770761ee4219e38cd3bb9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:12 +0000
Subject: [PATCH 077/123] fix: ReverseSequence along other axes than 0 and 1

---
 tf2onnx/onnx_opset/tensor.py | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/tf2onnx/onnx_opset/tensor.py b/tf2onnx/onnx_opset/tensor.py
index 94e0680..4762a61 100644
--- a/tf2onnx/onnx_opset/tensor.py
+++ b/tf2onnx/onnx_opset/tensor.py
@@ -2062,11 +2062,23 @@ class ReverseSequence:
         ctx.remove_node(node.name)
         shape = ctx.get_shape(node.input[0])
         dtype = ctx.get_dtype(node.input[0])
-        node = ctx.make_node(
-            "ReverseSequence",
-            node.input,
-            outputs=node.output,
-            attr={"batch_axis": batch_dim, "time_axis": seq_dim}, shapes=[shape], dtypes=[dtype])
+        if {batch_dim, seq_dim} == {0, 1}:
+            node = ctx.make_node(
+                "ReverseSequence",
+                node.input,
+                outputs=node.output,
+                attr={"batch_axis": batch_dim, "time_axis": seq_dim}, shapes=[shape], dtypes=[dtype])
+        else:
+            # onnx only knows the axes 0 and 1
+            rank = ctx.get_rank(node.input[0])
+            utils.make_sure(rank is not None, "rank of {} is unknown".format(node.input[0]))
+            perm = [batch_dim, seq_dim] + [i for i in range(rank) if i not in [batch_dim, seq_dim]]
+            transposed = ctx.make_node("Transpose", [node.input[0]], attr={"perm": perm}).output[0]
+            outputs = node.output
+            node = ctx.make_node("ReverseSequence", [transposed, node.input[1]],
+                                 attr={"batch_axis": 0, "time_axis": 1})
+            ctx.make_node("Transpose", node.output, outputs=outputs, attr={"perm": [perm.index(i) for i in range(rank)]},
+                          shapes=[shape], dtypes=[dtype])
 
         seq_len_dtype = ctx.get_dtype(node.input[1])
         utils.make_sure(seq_len_dtype is not None, "dtype of {} is None".format(node.input[1]))
-- 
2.43.0


From 8e84cbf2801f5861664e0684a20ed299e9258606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:12 +0000
Subject: [PATCH 078/123] fix: SparseToDense with int32 indices, a scalar value
 or a vector of indices

---
 tf2onnx/onnx_opset/tensor.py | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/tf2onnx/onnx_opset/tensor.py b/tf2onnx/onnx_opset/tensor.py
index 4762a61..fc20ce5 100644
--- a/tf2onnx/onnx_opset/tensor.py
+++ b/tf2onnx/onnx_opset/tensor.py
@@ -2380,11 +2380,24 @@ class SparseToDense:
     @classmethod
     def version_11(cls, ctx, node, **kwargs):
         sparse_indices, out_shape, sparse_vals, default_val = node.input
-        idx_shape = ctx.get_shape(sparse_indices)
-        val_shape = ctx.get_shape(sparse_vals)
-        val_is_scalar = val_shape is not None and val_shape[0] == 1
-        idx_is_scalar = idx_shape is not None and idx_shape[0] == 1
-        utils.make_sure(not val_is_scalar or idx_is_scalar, "SparseToDense not implemented yet for scalar values")
+        idx_rank = ctx.get_rank(sparse_indices)
+        val_rank = ctx.get_rank(sparse_vals)
+        if ctx.get_dtype(out_shape) != TensorProto.INT64:
+            out_shape = ctx.make_node("Cast", [out_shape], attr={"to": TensorProto.INT64}).output[0]
+        if ctx.get_dtype(sparse_indices) != TensorProto.INT64:
+            sparse_indices = ctx.make_node("Cast", [sparse_indices], attr={"to": TensorProto.INT64}).output[0]
+        if idx_rank is not None and idx_rank < 2:
+            # one index or a vector of indices into a vector
+            index_shape = ctx.make_const(utils.make_name("index_shape"), np.array([-1, 1], np.int64)).output[0]
+            sparse_indices = ctx.make_node("Reshape", [sparse_indices, index_shape]).output[0]
+        if val_rank == 0:
+            # the same value for all indices
+            const_zero = ctx.make_const(utils.make_name("const_zero"), np.array([0], np.int64)).output[0]
+            const_one = ctx.make_const(utils.make_name("const_one"), np.array([1], np.int64)).output[0]
+            indices_shape = ctx.make_node("Shape", [sparse_indices]).output[0]
+            indices_count = GraphBuilder(ctx).make_slice(
+                {"data": indices_shape, "starts": const_zero, "ends": const_one, "axes": [0]})
+            sparse_vals = ctx.make_node("Expand", [sparse_vals, indices_count]).output[0]
 
         expand_node = ctx.make_node("Expand", [default_val, out_shape])
         node.type = "ScatterND"
-- 
2.43.0


From ceb827f1a7a5e98a33fd8b8e0107465d3bb67d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:12 +0000
Subject: [PATCH 079/123] fix: DynamicStitch at opset 10

---
 tf2onnx/onnx_opset/tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tf2onnx/onnx_opset/tensor.py b/tf2onnx/onnx_opset/tensor.py
index fc20ce5..1dfa756 100644
--- a/tf2onnx/onnx_opset/tensor.py
+++ b/tf2onnx/onnx_opset/tensor.py
@@ -3049,7 +3049,7 @@ class DynamicStitch:
         name = node.name
         outputs = node.output
         ctx.remove_node(node.name)
-        ctx.make_node("ScatterElements",
+        ctx.make_node("ScatterElements" if ctx.opset >= 11 else "Scatter",
                       [zeros_of_shape.output[0], expanded_indices.output[0], concat_data.output[0]],
                       name=name,
                       outputs=outputs,
-- 
2.43.0


From 396df4c36ba7e7a58a8abd87256b9fcaef30fe95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:12 +0000
Subject: [PATCH 080/123] fix: MatrixDiagPart of batches of matrices

---
 tf2onnx/onnx_opset/tensor.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tf2onnx/onnx_opset/tensor.py b/tf2onnx/onnx_opset/tensor.py
index 1dfa756..d879a88 100644
--- a/tf2onnx/onnx_opset/tensor.py
+++ b/tf2onnx/onnx_opset/tensor.py
@@ -3070,8 +3070,8 @@ class MatrixDiagPart:
     @classmethod
     def any_version(cls, opset, ctx, node, **kwargs):
         # MatrixDiagPart by slice and gather
-        minus_two_one, minus_two, minus_one, zeo, zeo_zeo, one, two, two_one = \
-            [n.output[0] for n in ctx.make_consts([[-2, -1], [-2], [-1], [0], [0, 0], [1], [2], [2, 1]])]
+        minus_two_one, minus_two, minus_one, zeo, zeo_zeo, one, two = \
+            [n.output[0] for n in ctx.make_consts([[-2, -1], [-2], [-1], [0], [0, 0], [1], [2]])]
         zeo_, one_ = [n.output[0] for n in ctx.make_consts([0, 1])]
 
         input_shape = ctx.make_node('Shape', [node.input[0]])
@@ -3086,7 +3086,7 @@ class MatrixDiagPart:
         min_matrice_dim = ctx.make_node('Cast', [min_matrice_dim_float.output[0]], attr={'to': TensorProto.INT64})
         double_matrice_dim = ctx.make_node('Concat', [min_matrice_dim.output[0], min_matrice_dim.output[0]],
                                            attr={'axis': -1})
-        sliced_input = ctx.make_node('Slice', [node.input[0], zeo_zeo, double_matrice_dim.output[0], two_one])
+        sliced_input = ctx.make_node('Slice', [node.input[0], zeo_zeo, double_matrice_dim.output[0], minus_two_one])
         sliced_input_shape = ctx.make_node('Shape', [sliced_input.output[0]])
         sliced_input_shape_half = ctx.make_node('Slice', [sliced_input_shape.output[0], zeo,
                                                           minus_one])
-- 
2.43.0


From 57e59354d53a0bdc172b791e0f36679eb3806637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:19 +0000
Subject: [PATCH 081/123] fix: MatrixDiag of a batch with one vector

---
 tf2onnx/onnx_opset/tensor.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/tf2onnx/onnx_opset/tensor.py b/tf2onnx/onnx_opset/tensor.py
index d879a88..e9a1c86 100644
--- a/tf2onnx/onnx_opset/tensor.py
+++ b/tf2onnx/onnx_opset/tensor.py
@@ -3535,7 +3535,8 @@ class MatrixDiag:
             # unsqueeze diag if necessary
             diag = node.input[0]
             shape = ctx.get_shape(diag)
-            if len(shape) == 1:
+            is_vector = len(shape) == 1
+            if is_vector:
                 if ctx.opset < 13:
                     diag = mknode("Unsqueeze", [diag], attr={"axes": [0]})
                 else:
@@ -3543,14 +3544,13 @@ class MatrixDiag:
                 shape = [1] + shape
                 ctx.set_shape(diag, shape)
 
-            diag_shape = mknode("Shape", [diag])
-            diag_depth = mknode("Slice", [diag_shape, minus_two, minus_one])
             k = normalize(node.input[1]) if argc > 1 else zeo
             k_min = GraphBuilder(ctx).make_reduce_min({"data": k})
             k_max = GraphBuilder(ctx).make_reduce_max({"data": k})
             k_max_nxt = mknode("Add", [k_max, one])
             k_depth = mknode("Sub", [k_max_nxt, k_min])
-            equal = mknode("Equal", [k_depth, diag_depth])
+            # a single diagonal has no dimension for the number of diagonals
+            is_single = mknode("Equal", [k_depth, one])
 
             def id_diag():
                 g = ctx.create_new_graph_with_same_config()
@@ -3570,8 +3570,10 @@ class MatrixDiag:
                 g.add_graph_output(ex, ctx.get_dtype(node.input[0]), [-1] * rank)
                 return g
 
-            branches = {"then_branch": id_diag(), "else_branch": ex_diag()}
-            expand_diag = ctx.make_node("If", [equal], branches=branches)
+            if is_vector:
+                return diag, k, k_min, k_max, k_max_nxt
+            branches = {"then_branch": ex_diag(), "else_branch": id_diag()}
+            expand_diag = ctx.make_node("If", [is_single], branches=branches)
             return expand_diag.output[0], k, k_min, k_max, k_max_nxt
 
         def squeeze_12(name):
-- 
2.43.0


From 98a14041393c7eff9eb2e118396d881da7d17cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:19 +0000
Subject: [PATCH 082/123] fix: InvertPermutation of int32

---
 tf2onnx/onnx_opset/math.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tf2onnx/onnx_opset/math.py b/tf2onnx/onnx_opset/math.py
index a8fca6f..04b82b6 100644
--- a/tf2onnx/onnx_opset/math.py
+++ b/tf2onnx/onnx_opset/math.py
@@ -1142,9 +1142,10 @@ class InvertPermutationOp:
 
         ctx.remove_node(node.name)
 
+        # the indices of TopK are int64
         last_node = ctx.make_node(
-            "Identity", inputs=topk_node.output[1:], name=utils.make_name(node.name + '_indices'),
-            shapes=[shape], dtypes=[onnx_dtype])
+            "Cast", inputs=topk_node.output[1:], name=utils.make_name(node.name + '_indices'),
+            attr={'to': onnx_dtype}, shapes=[shape], dtypes=[onnx_dtype])
 
         ctx.replace_all_inputs(node.output[0], last_node.output[0])  # ops=ctx.get_nodes()
 
-- 
2.43.0


From 75eedc8a12ece7fccf421e04217671dd00ae8050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:19 +0000
Subject: [PATCH 083/123] fix: OnesLike before opset 9 returned its input

---
 tf2onnx/onnx_opset/generator.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tf2onnx/onnx_opset/generator.py b/tf2onnx/onnx_opset/generator.py
index f6c3735..910ee0f 100644
--- a/tf2onnx/onnx_opset/generator.py
+++ b/tf2onnx/onnx_opset/generator.py
@@ -233,9 +233,11 @@ def _const_like_version_1(ctx, node, value):
     dtypes = node.output_dtypes
     ctx.remove_node(node.name)
     casted_input = ctx.make_node("Cast", node.input, attr={'to': onnx_pb.TensorProto.INT64})
+    const_zero = ctx.make_const(utils.make_name("zero"), np.array(0).astype(np.int64))
     const_value = ctx.make_const(utils.make_name("value"), np.array(value).astype(np.int64))
-    mul_node = ctx.make_node('Mul', inputs=[casted_input.output[0], const_value.output[0]])
-    ctx.make_node("Cast", inputs=[mul_node.output[0]],
+    mul_node = ctx.make_node('Mul', inputs=[casted_input.output[0], const_zero.output[0]])
+    add_node = ctx.make_node('Add', inputs=[mul_node.output[0], const_value.output[0]])
+    ctx.make_node("Cast", inputs=[add_node.output[0]],
                   attr={'to': dtypes[0]},
                   name=node.name, outputs=node.output,
                   shapes=shapes, dtypes=dtypes)
-- 
2.43.0


From aba493a4c8e56688526f7e1fe138d0076ace1aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:19 +0000
Subject: [PATCH 084/123] fix: Pad before opset 11 needs a float value
 attribute

---
 tf2onnx/onnx_opset/nn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tf2onnx/onnx_opset/nn.py b/tf2onnx/onnx_opset/nn.py
index e2df904..8bae859 100644
--- a/tf2onnx/onnx_opset/nn.py
+++ b/tf2onnx/onnx_opset/nn.py
@@ -898,7 +898,7 @@ class Pad:
 
         if mode in [None, "constant"] and len(node.input) == 3:
             const_val = node.inputs[2].get_tensor_value()
-            node.set_attr("value", const_val)
+            node.set_attr("value", float(const_val))
             ctx.remove_input(node, node.input[2], 2)
 
         ctx.remove_input(node, node.input[1], 1)
-- 
2.43.0


From 11292ed929381a4f8b0ca64dd0ffd0e46ba35741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:20 +0000
Subject: [PATCH 085/123] fix: Flatten of types other than float before opset 9

---
 tf2onnx/rewriter/flatten_rewriter.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/tf2onnx/rewriter/flatten_rewriter.py b/tf2onnx/rewriter/flatten_rewriter.py
index fac9263..217f8cf 100644
--- a/tf2onnx/rewriter/flatten_rewriter.py
+++ b/tf2onnx/rewriter/flatten_rewriter.py
@@ -7,6 +7,8 @@ tf2onnx.rewriter - rewrite tensorflow subgraph to onnx flatten op
 
 import numpy as np
 
+from onnx import TensorProto
+
 from tf2onnx import utils
 from tf2onnx.graph_matcher import GraphMatcher, OpTypePattern
 
@@ -54,6 +56,11 @@ def rewrite_flatten(g, ops):
             if not need_rewrite:
                 continue
 
+            if g.opset < 9 and g.get_dtype(reshape_node.input[0]) not in \
+                    [TensorProto.FLOAT, TensorProto.FLOAT16, TensorProto.DOUBLE]:
+                # Flatten takes other types from opset 9 on
+                continue
+
             input_shape = g.get_shape(reshape_node.input[0])
             need_rewrite = input_shape is not None
             if not need_rewrite:
-- 
2.43.0


From ed4436126ca1aae12c47abfc14daff41b7b918bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:25 +0000
Subject: [PATCH 086/123] fix: external storage needs the content of typed
 tensors

---
 tf2onnx/utils.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/tf2onnx/utils.py b/tf2onnx/utils.py
index 2fedd24..82de37f 100644
--- a/tf2onnx/utils.py
+++ b/tf2onnx/utils.py
@@ -19,7 +19,7 @@ from typing import Any, Optional, Sequence
 import numpy as np
 import requests
 from google.protobuf import text_format
-from onnx import AttributeProto, ModelProto, NodeProto, __version__, defs, helper, numpy_helper, onnx_pb
+from onnx import AttributeProto, ModelProto, NodeProto, TensorProto, __version__, defs, helper, numpy_helper, onnx_pb
 from requests.adapters import HTTPAdapter
 from urllib3.util.retry import Retry
 
@@ -301,6 +301,17 @@ def save_onnx_zip(target_path, model_proto, external_tensor_storage):
             z.writestr(k, v)
 
 
+def get_raw_data(tensor):
+    """Content of a TensorProto as it is kept in raw_data, whichever field it is in."""
+    if tensor.HasField("raw_data"):
+        return tensor.raw_data
+    if tensor.data_type == TensorProto.BFLOAT16:
+        return np.array(tensor.int32_data, dtype=np.uint16).tobytes()
+    if tensor.data_type > TensorProto.BFLOAT16:  # float8
+        return np.array(tensor.int32_data, dtype=np.uint8).tobytes()
+    return numpy_helper.from_array(numpy_helper.to_array(tensor)).raw_data
+
+
 def make_sure(bool_val, error_msg, *args):
     if not bool_val:
         raise ValueError("make_sure failure: " + error_msg % args)
-- 
2.43.0


From 96b44bd8a7e06e14062e12367d71049c6f4679b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:25 +0000
Subject: [PATCH 087/123] fix: generated names have to avoid the names a graph
 already has

---
 tf2onnx/utils.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/tf2onnx/utils.py b/tf2onnx/utils.py
index 82de37f..f8d762a 100644
--- a/tf2onnx/utils.py
+++ b/tf2onnx/utils.py
@@ -239,19 +239,23 @@ def get_subgraphs_from_onnx(model_proto):
                     stack.extend(attr.graphs)
 
 
+NAME_SUFFIX_REGEX = re.compile(r"__(\d{1,18})(?!\d)")
+
+
+def avoid_names(names):
+    """Avoid name conflicts by moving the counter used by make_name past the numbers used in the names"""
+    global INTERNAL_NAME
+    for name in names:
+        for suffix in NAME_SUFFIX_REGEX.findall(name):
+            INTERNAL_NAME = max(INTERNAL_NAME, int(suffix) + 1)
+
+
 def initialize_name_counter(model_proto):
     """Avoid name conflicts by initializing the counter used by make_name based on the provided model"""
-    suffix_regex = re.compile(r"__(\d+)(:\d+)?$")
-    def avoid_name(name):
-        global INTERNAL_NAME
-        suffix = suffix_regex.search(name)
-        if suffix:
-            INTERNAL_NAME = max(INTERNAL_NAME, int(suffix.group(1)) + 1)
     for g in get_subgraphs_from_onnx(model_proto):
+        avoid_names(t.name for t in list(g.initializer) + list(g.input))
         for n in g.node:
-            avoid_name(n.name)
-            for out in n.output:
-                avoid_name(out)
+            avoid_names([n.name] + list(n.output))
 
 
 def save_onnx_model(save_path_root, onnx_file_name, feed_dict, model_proto, include_test_data=False, as_text=False,
-- 
2.43.0


From ad2e387bc316fa2ddf68a84bb6e1a612fd561d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:25 +0000
Subject: [PATCH 088/123] fix: an extra domain gets its own handlers, not those
 of the table collected so far

---
 tf2onnx/handler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tf2onnx/handler.py b/tf2onnx/handler.py
index d0786b2..384b6e8 100644
--- a/tf2onnx/handler.py
+++ b/tf2onnx/handler.py
@@ -91,7 +91,7 @@ class tf_op:
                 m = mapping.get(domain)
                 if m:
                     if target_opset <= m and op_map:
-                        domain_to_ops_mapping[domain].update(ops_mapping)
+                        domain_to_ops_mapping[domain].update(op_map)
                         ops_mapping.update(op_map)
 
         tf_op._MAPPING = ops_mapping
-- 
2.43.0


From 65fe088ad4f912464dd47380985a189eb4218205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:25 +0000
Subject: [PATCH 089/123] fix: a pattern is not matched by an input that is
 absent

---
 tf2onnx/graph_matcher.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tf2onnx/graph_matcher.py b/tf2onnx/graph_matcher.py
index 5fd3e14..cbc7fe3 100644
--- a/tf2onnx/graph_matcher.py
+++ b/tf2onnx/graph_matcher.py
@@ -155,7 +155,7 @@ class GraphMatcher(object):
         if pattern.op_type == "*":
             return True
 
-        if op.type in pattern.op_type_set:
+        if op is not None and op.type in pattern.op_type_set:
             return True
 
         return False
-- 
2.43.0


From eced291dcd09981887a5ec005aded7a366d1852c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:25 +0000
Subject: [PATCH 090/123] fix: registered keyword arguments are not shared
 between the operators of a conversion

---
 tf2onnx/tfonnx.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tf2onnx/tfonnx.py b/tf2onnx/tfonnx.py
index 6e4d5ee..711fb72 100644
--- a/tf2onnx/tfonnx.py
+++ b/tf2onnx/tfonnx.py
@@ -270,7 +270,8 @@ def tensorflow_onnx_mapping(g, ops_mapping, initialized_tables=None, is_tflite=F
             converted_op = kwargs.get("tf_op" if is_tflite else "onnx_op")
             if converted_op:
                 # sometimes the handler wants to know what the old op name was
-                kwargs["tfl_op" if is_tflite else "tf_op"] = op
+                # (the registered kwargs are shared between operators, so don't change them)
+                kwargs = {**kwargs, "tfl_op" if is_tflite else "tf_op": op}
                 node.type = converted_op
         body_graphs = node.get_body_graphs()
         if body_graphs:
-- 
2.43.0


From 9bf890c9eaa9a1c7ab1fb6ba35bdd605b10becac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:25 +0000
Subject: [PATCH 091/123] fix: operators of bodies are mapped with the same
 keyword arguments as those of the graph

---
 tf2onnx/tfonnx.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tf2onnx/tfonnx.py b/tf2onnx/tfonnx.py
index 711fb72..9d01922 100644
--- a/tf2onnx/tfonnx.py
+++ b/tf2onnx/tfonnx.py
@@ -281,7 +281,8 @@ def tensorflow_onnx_mapping(g, ops_mapping, initialized_tables=None, is_tflite=F
                 # we assume only ONNX nodes have subgraph defined in pre-rewriters.
                 # that means, if we create node having subgraphs in this step, the
                 # created subgraphs' nodes won't be mapped.
-                m_ops, unm_ops, body_exceptions = tensorflow_onnx_mapping(b_g, ops_mapping)
+                m_ops, unm_ops, body_exceptions = tensorflow_onnx_mapping(b_g, ops_mapping, initialized_tables,
+                                                                         is_tflite, dequantize)
                 mapped_op += m_ops
                 unmapped_op += unm_ops
                 # topological_sort on the body in case processing has changed the order
-- 
2.43.0


From f7c1c91ff102efda3cf2ca4b931447121302705f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:25 +0000
Subject: [PATCH 092/123] fix: functions do not take constants of the main
 graph for their own

---
 tf2onnx/tfonnx.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tf2onnx/tfonnx.py b/tf2onnx/tfonnx.py
index 9d01922..f798f49 100644
--- a/tf2onnx/tfonnx.py
+++ b/tf2onnx/tfonnx.py
@@ -479,10 +479,11 @@ def graphs_from_tf(tf_graph, input_names, output_names, shape_override=None, con
         f_inputs_names = [t.name for t in func.inputs]
         f_output_names = [t.name for t in func.outputs]
 
-        outputs_to_values, _ = compute_const_folding_using_tf(func, const_node_values, output_names)
+        # const_node_values belong to the nodes of the main graph: a function may have other constants of these names
+        outputs_to_values, _ = compute_const_folding_using_tf(func, None, output_names)
 
         onnx_nodes, _, _, output_shapes, dtypes, _ = \
-            tensorflow_to_onnx(func, shape_override, const_node_values, ignore_default, use_default)
+            tensorflow_to_onnx(func, shape_override, None, ignore_default, use_default)
 
         fg = Graph(onnx_nodes, output_shapes, dtypes, input_names=f_inputs_names, output_names=f_output_names,
                    is_subgraph=True, graph_name=func.name)
-- 
2.43.0


From a9cf58fb85be51746aefd7398cc9676a799145fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:25 +0000
Subject: [PATCH 093/123] fix: custom handlers of one conversion stay out of
 the next one

---
 tf2onnx/tfonnx.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/tf2onnx/tfonnx.py b/tf2onnx/tfonnx.py
index f798f49..ead61de 100644
--- a/tf2onnx/tfonnx.py
+++ b/tf2onnx/tfonnx.py
@@ -568,10 +568,7 @@ def process_parsed_graph(g, custom_op_handlers, inputs_as_nchw, outputs_as_nchw,
                 kwargs["onnx_op"] = onnx_op
                 args = args[1:]
             kwargs["args"] = args
-            new_handler = handler.tf_op(k,
-                                        domain=constants.TENSORFLOW_OPSET.domain,
-                                        kwargs=kwargs)
-            new_handler.register_compat_handler(compat_handler, 1)
+            # only add it to the mapping of this conversion, it is not registered for later ones
             custom_opset[k] = (compat_handler, kwargs)
         ops_mapping.update(custom_opset)
 
-- 
2.43.0


From 32dcc6eaf1af23ca221d497574c2fbe4c369bd85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:25 +0000
Subject: [PATCH 094/123] fix: external storage moves every large tensor except
 strings, whatever field holds it

---
 tf2onnx/graph.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/tf2onnx/graph.py b/tf2onnx/graph.py
index f3ca55d..afbefba 100644
--- a/tf2onnx/graph.py
+++ b/tf2onnx/graph.py
@@ -102,16 +102,18 @@ class Node(object):
             return external_tensor_storage.node_to_modified_value_attr[self]
         if external_tensor_storage is None or a.type != AttributeProto.TENSOR:
             return a
-        if np.product(a.t.dims) > external_tensor_storage.external_tensor_size_threshold:
+        if a.t.data_type == TensorProto.STRING:
+            return a  # only raw data can be external
+        if np.prod(a.t.dims) > external_tensor_storage.external_tensor_size_threshold:
             a = copy.deepcopy(a)
             tensor_name = self.name.strip() + "_" + str(external_tensor_storage.name_counter)
             for c in '~"#%&*:<>?/\\{|}':
                 tensor_name = tensor_name.replace(c, '_')
             external_tensor_storage.name_counter += 1
-            external_tensor_storage.name_to_tensor_data[tensor_name] = a.t.raw_data
+            external_tensor_storage.name_to_tensor_data[tensor_name] = utils.get_raw_data(a.t)
             external_tensor_storage.node_to_modified_value_attr[self] = a
-            a.t.raw_data = b''
-            a.t.ClearField("raw_data")
+            for field in ["raw_data", "float_data", "int32_data", "int64_data", "double_data", "uint64_data"]:
+                a.t.ClearField(field)
             location = a.t.external_data.add()
             location.key = "location"
             location.value = tensor_name
-- 
2.43.0


From 6aa14a2f7292f85386ea371dff12ac90db163dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:25 +0000
Subject: [PATCH 095/123] fix: names generated for a graph avoid the names of
 its nodes

---
 tf2onnx/graph.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tf2onnx/graph.py b/tf2onnx/graph.py
index afbefba..4f00c1d 100644
--- a/tf2onnx/graph.py
+++ b/tf2onnx/graph.py
@@ -450,6 +450,8 @@ class Graph(object):
         """
         if target is None:
             target = []
+        for node in nodes:
+            utils.avoid_names([node.name] + list(node.output))
         self._nodes = []
         self._nodes_by_name = {}
         self._output_to_node_name = {}
-- 
2.43.0


From 375dbc18fc841aa927346444f80f67770887b739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:25 +0000
Subject: [PATCH 096/123] fix: make_const gives the node a fresh name when
 another node has it

---
 tf2onnx/graph.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tf2onnx/graph.py b/tf2onnx/graph.py
index 4f00c1d..591a2cc 100644
--- a/tf2onnx/graph.py
+++ b/tf2onnx/graph.py
@@ -588,7 +588,9 @@ class Graph(object):
             onnx_tensor = helper.make_tensor(name, utils.map_numpy_to_onnx_dtype(np_val.dtype),
                                              np_val.shape, np_val_flat, raw=False)
         dtype = onnx_tensor.data_type
-        node = self.make_node("Const", [], outputs=[name], name=name, attr={"value": onnx_tensor},
+        # another node may be called like the tensor: only the name of the tensor has to be kept
+        node_name = name if self.get_node_by_name(name) is None else utils.make_name(name)
+        node = self.make_node("Const", [], outputs=[name], name=node_name, attr={"value": onnx_tensor},
                               skip_conversion=skip_conversion, dtypes=[dtype], infer_shape_dtype=False)
         self.set_shape(name, np_val.shape)
         self.set_dtype(name, utils.map_numpy_to_onnx_dtype(np_val.dtype))
-- 
2.43.0


From f6b6df535237961e7b3d36ae0a79adc96d53a2a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:25 +0000
Subject: [PATCH 097/123] fix: an absent output is not an output that already
 exists

---
 tf2onnx/graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tf2onnx/graph.py b/tf2onnx/graph.py
index 591a2cc..53c8b1c 100644
--- a/tf2onnx/graph.py
+++ b/tf2onnx/graph.py
@@ -638,7 +638,7 @@ class Graph(object):
         n = self.get_node_by_name(name)
         utils.make_sure(n is None, "name %s already exists in node: \n%s", name, n)
         for o in outputs:
-            n = self.get_node_by_output_in_current_graph(o)
+            n = self.get_node_by_output_in_current_graph(o) if o else None  # "" is an output left out
             utils.make_sure(n is None, "output tensor named %s already exists in node: \n%s", o, n)
 
         onnx_node = utils.make_onnx_node_with_attr(op_type, inputs, outputs, name=name, domain=domain, **raw_attr)
-- 
2.43.0


From c35a088469dfc929d1f6d5be6022463bde7331e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:25 +0000
Subject: [PATCH 098/123] fix: model-local functions survive loading

---
 tf2onnx/graph.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tf2onnx/graph.py b/tf2onnx/graph.py
index 53c8b1c..4c282ff 100644
--- a/tf2onnx/graph.py
+++ b/tf2onnx/graph.py
@@ -1665,6 +1665,8 @@ class GraphUtil(object):
         if onnx_model_proto.HasField('doc_string'):
             kwargs["doc_string"] = onnx_model_proto.doc_string
         kwargs["opset_imports"] = onnx_model_proto.opset_import
+        if onnx_model_proto.functions:
+            kwargs["functions"] = onnx_model_proto.functions
 
         return kwargs
 
-- 
2.43.0


From f1831f8afe759d2e3342b363b6fb24146dc57878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:25 +0000
Subject: [PATCH 099/123] fix: all forms of Constant are loaded

---
 tf2onnx/graph.py | 38 +++++++++++++++++++++++++++++++++++---
 1 file changed, 35 insertions(+), 3 deletions(-)

diff --git a/tf2onnx/graph.py b/tf2onnx/graph.py
index 4c282ff..cc1c2a5 100644
--- a/tf2onnx/graph.py
+++ b/tf2onnx/graph.py
@@ -1132,10 +1132,13 @@ class Graph(object):
                                 "non-const default value for PlaceholderWithDefault node '%s' is not supported. "
                                 "Use the --use_default or --ignore_default flags to convert this node.", op.name)
                 # copy the tensor value, set its name to current node's output, add as initializer
-                value = op.inputs[0].get_tensor_value(as_list=False)
-                tensor = numpy_helper.from_array(value, op.output[0])
+                tensor = copy.deepcopy(helper.get_attribute_value(op.inputs[0].get_value_attr(external_tensor_storage)))
+                tensor.name = op.output[0]
                 initializers.append(tensor)
-                placeholder_default_const_ops.append(op.inputs[0])
+                default_name = op.input[0]
+                if default_name not in self.outputs and \
+                        all(c.type == "PlaceholderWithDefault" for c in self.find_output_consumers(default_name)):
+                    placeholder_default_const_ops.append(op.inputs[0])
 
         # create initializers for constant nodes
         const_ops = [op for op in const_ops if op not in placeholder_default_const_ops]
@@ -1735,6 +1738,35 @@ class GraphUtil(object):
                     n.set_body_graph_as_attr(attr_name, sub_g)
         return g
 
+    @staticmethod
+    def _constant_to_tensor(node):
+        """Keep the value of a Constant in its value attribute, whichever attribute it is given by."""
+        a = node.attribute[0]
+        val = helper.get_attribute_value(a)
+        if a.name == "sparse_value":
+            np_val = GraphUtil._sparse_to_array(val)
+        elif a.name in ["value_int", "value_ints"]:
+            np_val = np.array(val, dtype=np.int64)
+        elif a.name in ["value_float", "value_floats"]:
+            np_val = np.array(val, dtype=np.float32)
+        elif a.name in ["value_string", "value_strings"]:
+            np_val = np.array(val, dtype=object)
+        else:
+            return
+        del node.attribute[:]
+        node.attribute.append(helper.make_attribute("value", numpy_helper.from_array(np_val, node.output[0])))
+
+    @staticmethod
+    def _sparse_to_array(sparse_tensor):
+        """Dense numpy array for a SparseTensorProto."""
+        values, indices = numpy_helper.to_array(sparse_tensor.values), numpy_helper.to_array(sparse_tensor.indices)
+        np_val = np.zeros(list(sparse_tensor.dims), values.dtype)
+        if indices.ndim == 1:
+            np_val.reshape(-1)[indices] = values
+        else:
+            np_val[tuple(indices.T)] = values
+        return np_val
+
     @staticmethod
     def get_node_count_from_onnx_graph(graph_proto):
         op_cnt = collections.Counter()
-- 
2.43.0


From 7f951e23de84b228942953ab343158d928b7fa9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:25 +0000
Subject: [PATCH 100/123] fix: nodes of a loaded graph that share a name are
 told apart

---
 tf2onnx/graph.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/tf2onnx/graph.py b/tf2onnx/graph.py
index cc1c2a5..1faeec2 100644
--- a/tf2onnx/graph.py
+++ b/tf2onnx/graph.py
@@ -1709,13 +1709,20 @@ class GraphUtil(object):
         output_dtypes.update(dtypes)
 
         nodes_to_append = []
+        # initializers and inputs become nodes of that name
+        node_names = {v.name for v in list(graph_proto.initializer) + list(graph_proto.input)}
+        node_names.update(t.values.name for t in graph_proto.sparse_initializer)
         for n in graph_proto.node:
-            if n.op_type == "Constant":
+            if n.op_type == "Constant" and n.domain in [constants.ONNX_DOMAIN, "ai.onnx"]:
                 n.op_type = "Const"
+                GraphUtil._constant_to_tensor(n)
 
             # some pytorch model had empty names - make one up
             if not n.name:
                 n.name = utils.make_name("was_empty")
+            elif n.name in node_names:
+                n.name = utils.make_name(n.name)
+            node_names.add(n.name)
             nodes_to_append.append(n)
 
         output_names = []
-- 
2.43.0


From 90852213d4b15fa3d75f753fac7b6fb31e69fe62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:25 +0000
Subject: [PATCH 101/123] fix: initializers of types numpy lacks keep their
 type

---
 tf2onnx/graph.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/tf2onnx/graph.py b/tf2onnx/graph.py
index 1faeec2..bff3762 100644
--- a/tf2onnx/graph.py
+++ b/tf2onnx/graph.py
@@ -1813,7 +1813,14 @@ class GraphUtil(object):
         const_nodes = []
         for initializer in graph_proto.initializer:
             np_val = numpy_helper.to_array(initializer)
-            const_nodes.append(g.make_const(initializer.name, np_val))
+            const_node = g.make_const(initializer.name, np_val)
+            if g.get_dtype(initializer.name) != initializer.data_type:
+                # numpy has no such type (bfloat16, float8)
+                const_node.set_attr("value", initializer)
+                g.set_dtype(initializer.name, initializer.data_type)
+            const_nodes.append(const_node)
+        for initializer in graph_proto.sparse_initializer:
+            const_nodes.append(g.make_const(initializer.values.name, GraphUtil._sparse_to_array(initializer)))
 
         return const_nodes
 
-- 
2.43.0


From ce251507b48a3e3c29c2bbb8d831fcb292a5606d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:04 +0000
Subject: [PATCH 102/123] fix: a function returning a tensor twice gives a body
 with different outputs

---
 tf2onnx/onnx_opset/controlflow.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/tf2onnx/onnx_opset/controlflow.py b/tf2onnx/onnx_opset/controlflow.py
index 55ed1d8..d76fa74 100644
--- a/tf2onnx/onnx_opset/controlflow.py
+++ b/tf2onnx/onnx_opset/controlflow.py
@@ -645,6 +645,7 @@ def wire_while_body(parent_g, g, loop_node, body_input_to_state_var, cond_input_
     cond_outputs = inline_subgraph(g, cond_graph, "cond__", cond_binding)
 
     g.outputs = [cond_outputs[0]] + g.outputs[2:] + scan_outputs
+    separate_outputs(g)
 
     # onnx does not have a variant type so we try to fish for the dtype in a prior TensorListSetItem.
     for o in g.outputs:
@@ -682,6 +683,14 @@ def wire_while_body(parent_g, g, loop_node, body_input_to_state_var, cond_input_
     return g
 
 
+def separate_outputs(g):
+    """The outputs of an onnx graph are different tensors, a function may return a tensor more than once."""
+    for i, name in enumerate(g.outputs):
+        if name in g.outputs[:i]:
+            g.outputs[i] = g.make_node("Identity", [name], shapes=[g.get_shape(name)],
+                                       dtypes=[g.get_dtype(name)]).output[0]
+
+
 def wire_if_branch(parent_g, g, inputs, output_shapes, output_dtypes, scope, parent):
     """Wire subgraph graph into main."""
     binding = parameter_binding(g, inputs)
@@ -698,6 +707,7 @@ def wire_if_branch(parent_g, g, inputs, output_shapes, output_dtypes, scope, par
         g.remove_node(node.name)
 
     prefix_graph(g, scope)
+    separate_outputs(g)
 
     for shape, dtype, output_name in zip(output_shapes, output_dtypes, g.outputs):
         g.set_shape(output_name, shape)
-- 
2.43.0


From 67e45794239941e374e6679a76f91cfbfa34fa95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:04 +0000
Subject: [PATCH 103/123] fix: If with branches of different rank is refused
 before opset 11

---
 tf2onnx/onnx_opset/controlflow.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/tf2onnx/onnx_opset/controlflow.py b/tf2onnx/onnx_opset/controlflow.py
index d76fa74..dadf0fc 100644
--- a/tf2onnx/onnx_opset/controlflow.py
+++ b/tf2onnx/onnx_opset/controlflow.py
@@ -243,12 +243,15 @@ class StatelessIfOp:
 
         # replace the original node
         branches = {}
+        branch_shapes = []
         for branch in ["then_branch", "else_branch"]:
             func_name = node.get_attr_str(branch)
             g = find_function(func_name)
             g.parent_graph = ctx
+            branch_shapes.append([g.get_shape(o) for o in g.outputs])
             wire_if_branch(ctx, g, inputs, output_shapes, output_dtypes, func_name, node.name)
             branches[branch] = g
+        check_branch_ranks(ctx, node, branch_shapes)
 
         _ = ctx.make_node("If", node.input[:1], name=node.name, outputs=outputs,
                           shapes=output_shapes, dtypes=output_dtypes, skip_conversion=True, branches=branches)
@@ -271,12 +274,15 @@ class IfOp:
 
         # replace the original node
         branches = {}
+        branch_shapes = []
         for branch in ["then_branch", "else_branch"]:
             func_name = node.get_attr_str(branch)
             g = find_function(func_name)
             g.parent_graph = ctx
+            branch_shapes.append([g.get_shape(o) for o in g.outputs])
             wire_if_branch(ctx, g, inputs, output_shapes, output_dtypes, func_name, node.name)
             branches[branch] = g
+        check_branch_ranks(ctx, node, branch_shapes)
 
         _ = ctx.make_node("If", node.input[:1], name=node.name, output_count=len(output_shapes),
                           shapes=output_shapes, dtypes=output_dtypes, outputs=node.output, skip_conversion=True,
@@ -691,6 +697,15 @@ def separate_outputs(g):
                                        dtypes=[g.get_dtype(name)]).output[0]
 
 
+def check_branch_ranks(ctx, node, branch_shapes):
+    """Before opset 11 the branches of If must agree on the rank of their outputs."""
+    if ctx.opset >= 11:
+        return
+    for then_shape, else_shape in zip(*branch_shapes):
+        utils.make_sure(then_shape is None or else_shape is None or len(then_shape) == len(else_shape),
+                        "%s: branches with outputs of different rank need opset >= 11", node.name)
+
+
 def wire_if_branch(parent_g, g, inputs, output_shapes, output_dtypes, scope, parent):
     """Wire subgraph graph into main."""
     binding = parameter_binding(g, inputs)
-- 
2.43.0


From 4630f6485cb629f7a2ac3a51813630a46b96b175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:04 +0000
Subject: [PATCH 104/123] fix: control flow operators sharing a function get a
 copy each, with names of its own

---
 tf2onnx/onnx_opset/controlflow.py          | 30 +++++++++++++++++++---
 tf2onnx/tflite_handlers/tfl_controlflow.py |  7 +++--
 2 files changed, 29 insertions(+), 8 deletions(-)

diff --git a/tf2onnx/onnx_opset/controlflow.py b/tf2onnx/onnx_opset/controlflow.py
index dadf0fc..ec974da 100644
--- a/tf2onnx/onnx_opset/controlflow.py
+++ b/tf2onnx/onnx_opset/controlflow.py
@@ -246,7 +246,7 @@ class StatelessIfOp:
         branch_shapes = []
         for branch in ["then_branch", "else_branch"]:
             func_name = node.get_attr_str(branch)
-            g = find_function(func_name)
+            g = function_for(ctx, func_name)
             g.parent_graph = ctx
             branch_shapes.append([g.get_shape(o) for o in g.outputs])
             wire_if_branch(ctx, g, inputs, output_shapes, output_dtypes, func_name, node.name)
@@ -277,7 +277,7 @@ class IfOp:
         branch_shapes = []
         for branch in ["then_branch", "else_branch"]:
             func_name = node.get_attr_str(branch)
-            g = find_function(func_name)
+            g = function_for(ctx, func_name)
             g.parent_graph = ctx
             branch_shapes.append([g.get_shape(o) for o in g.outputs])
             wire_if_branch(ctx, g, inputs, output_shapes, output_dtypes, func_name, node.name)
@@ -400,11 +400,11 @@ class While:
             maximum_iterations_m = cast_node.output[0]
 
         cond_name = node.get_attr_str("cond")
-        cond_graph = find_function(cond_name)
+        cond_graph = function_for(ctx, cond_name)
         cond_graph.parent_graph = ctx
 
         body_name = node.get_attr_str("body")
-        body = find_function(body_name)
+        body = function_for(ctx, body_name)
         body.parent_graph = ctx
 
         loop_vars = [] # passed into the loop
@@ -689,6 +689,28 @@ def wire_while_body(parent_g, g, loop_node, body_input_to_state_var, cond_input_
     return g
 
 
+def function_for(ctx, name):
+    """
+    The graph of a function for a node of ctx: a copy, since several nodes may use the same function and each of them
+    changes the graph, in which no tensor has the name of a tensor of ctx.
+    """
+    def rename(g):
+        hiding = {o: utils.port_name(utils.make_name(o.split(":")[0])) for n in g.get_nodes() for o in n.output
+                  if ctx.get_node_by_output_in_current_graph(o) is not None}
+        if hiding:
+            g.rename_tensors(hiding)
+            g.ta_reads = [hiding.get(n, n) for n in g.ta_reads]
+            g.scan_outputs = [(i, hiding.get(n, n)) for i, n in g.scan_outputs]
+        for node in g.get_nodes():
+            for body in (node.get_body_graphs() or {}).values():
+                rename(body)
+
+    graph = copy.deepcopy(find_function(name))
+    if graph is not None:
+        rename(graph)
+    return graph
+
+
 def separate_outputs(g):
     """The outputs of an onnx graph are different tensors, a function may return a tensor more than once."""
     for i, name in enumerate(g.outputs):
diff --git a/tf2onnx/tflite_handlers/tfl_controlflow.py b/tf2onnx/tflite_handlers/tfl_controlflow.py
index 60724a4..e0aa114 100644
--- a/tf2onnx/tflite_handlers/tfl_controlflow.py
+++ b/tf2onnx/tflite_handlers/tfl_controlflow.py
@@ -11,9 +11,8 @@ from onnx.onnx_pb import TensorProto
 
 from tf2onnx.handler import tfl_op
 from tf2onnx import utils
-from tf2onnx.tf_loader import find_function
 from tf2onnx.graph_builder import GraphBuilder
-from tf2onnx.onnx_opset.controlflow import parameter_binding, inline_subgraph
+from tf2onnx.onnx_opset.controlflow import parameter_binding, inline_subgraph, function_for
 
 
 # pylint: disable=unused-argument,missing-docstring,unused-variable,pointless-string-statement,invalid-name
@@ -29,11 +28,11 @@ class TflWhile:
         output_names = node.output
 
         cond_name = node.get_attr_str("cond_subgraph_index")
-        cond_graph = find_function(cond_name)
+        cond_graph = function_for(ctx, cond_name)
         cond_graph.parent_graph = ctx
 
         body_name = node.get_attr_str("body_subgraph_index")
-        body = find_function(body_name)
+        body = function_for(ctx, body_name)
         body.parent_graph = ctx
 
         ctx.remove_node(node.name)
-- 
2.43.0


From 49b05dd63b330e8773c3519b13cd1ecdda6150b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:04 +0000
Subject: [PATCH 105/123] fix: the iteration number of a loop body is a scalar

---
 tf2onnx/onnx_opset/controlflow.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tf2onnx/onnx_opset/controlflow.py b/tf2onnx/onnx_opset/controlflow.py
index ec974da..4a8dd12 100644
--- a/tf2onnx/onnx_opset/controlflow.py
+++ b/tf2onnx/onnx_opset/controlflow.py
@@ -561,6 +561,7 @@ def wire_while_body(parent_g, g, loop_node, body_input_to_state_var, cond_input_
     func_inputs = [i for i in g.input_names[2:] if i not in body_input_to_state_var]
     func_inputs = [g.input_names[0], cond_node.output[0]] + func_inputs
     g.set_dtype(func_inputs[0], onnx_pb.TensorProto.INT64)
+    g.set_shape(func_inputs[0], [])
     g.inputs = [g.get_node_by_output(inp) for inp in func_inputs]
 
     # we should use outputs shape, not inputs, since there may be shape invariants
-- 
2.43.0


From 72f7954a6a058185ec5e581ee91f4bc7b00e12bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:04 +0000
Subject: [PATCH 106/123] fix: prefixed graphs get a scope of their own and all
 their outputs are renamed

---
 tf2onnx/onnx_opset/controlflow.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tf2onnx/onnx_opset/controlflow.py b/tf2onnx/onnx_opset/controlflow.py
index 4a8dd12..9c1e98a 100644
--- a/tf2onnx/onnx_opset/controlflow.py
+++ b/tf2onnx/onnx_opset/controlflow.py
@@ -811,6 +811,8 @@ def parameter_binding(g, inputs, state_vars=None):
 
 def prefix_graph(g, scope):
     ops = g.get_nodes()[:]
+    # the new names must not hide, or be hidden by, those of another graph with the same scope
+    scope = utils.make_name(scope)
     to_remove = []
     for node in ops:
         output_shapes = node.output_shapes
@@ -830,7 +832,6 @@ def prefix_graph(g, scope):
             for i, oname in enumerate(g.outputs):
                 if old_output == oname:
                     g.outputs[i] = new_output
-                    break
             g.replace_all_inputs(old_output, new_output, ops=ops)
         to_remove.append(node)
     for node in to_remove:
-- 
2.43.0


From ddb3a61d80668ddcf23ca14fdcc4171754f10467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:18 +0000
Subject: [PATCH 107/123] fix: Minimum and Maximum of opset 7 broadcast any
 inputs

---
 tf2onnx/onnx_opset/math.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/tf2onnx/onnx_opset/math.py b/tf2onnx/onnx_opset/math.py
index 04b82b6..a4bd8d0 100644
--- a/tf2onnx/onnx_opset/math.py
+++ b/tf2onnx/onnx_opset/math.py
@@ -126,20 +126,23 @@ def make_min_or_max_op(ctx, op_type, inputs, outputs,
     has_correct_shape = []
     if ctx.opset < 8:
         for i, input_name in enumerate(node.input):
-            if ctx.get_shape(input_name) != shapeo:
+            input_shape = ctx.get_shape(input_name)
+            if input_shape is None or -1 in input_shape or input_shape != shapeo:
                 needs_broadcast_op.append(i)
             else:
                 has_correct_shape.append(input_name)
     if needs_broadcast_op:
-        has_correct_shape = has_correct_shape[0]
+        # get a tensor with zeros (since there is no Fill op as of opset8)
+        zeros = None
+        for input_name in has_correct_shape[:1] or node.input:
+            sub_node = ctx.make_node("Sub", [input_name, input_name], op_name_scope=node.name)
+            if zeros is None:
+                zeros = sub_node.output[0]
+            else:
+                zeros = ctx.make_node("Add", [zeros, sub_node.output[0]], op_name_scope=node.name).output[0]
         for i in needs_broadcast_op:
-            input_node = node.inputs[i]
-            # get a tensor with zeros (since there is no Fill op as of opset8)
-            sub_node = ctx.make_node("Sub", [has_correct_shape, has_correct_shape],
-                                     op_name_scope=input_node.name)
             # use add as 'broadcast' op
-            add_node = ctx.make_node("Add", [input_node.output[0], sub_node.output[0]],
-                                     op_name_scope=input_node.name)
+            add_node = ctx.make_node("Add", [node.input[i], zeros], op_name_scope=node.name)
             ctx.replace_input(node, node.input[i], add_node.output[0], i)
     return final_node
 
-- 
2.43.0


From f823196837653c1c0862a9a8c090c268af605249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:18 +0000
Subject: [PATCH 108/123] fix: the layouts of the transposes around LRN have
 the right shapes

---
 tf2onnx/onnx_opset/math.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/tf2onnx/onnx_opset/math.py b/tf2onnx/onnx_opset/math.py
index a4bd8d0..e05fde6 100644
--- a/tf2onnx/onnx_opset/math.py
+++ b/tf2onnx/onnx_opset/math.py
@@ -380,14 +380,17 @@ class LRN:
         node.set_attr("size", size)
         node.set_attr("alpha", size * node.get_attr("alpha").f)
 
-        shapes = node.output_shapes[0]
-        dtypes = node.output_dtypes[0]
+        shape = ctx.get_shape(node.output[0])
+        dtype = ctx.get_dtype(node.output[0])
 
         ctx.insert_new_node_on_input(node, "Transpose", node.input[0], perm=constants.NHWC_TO_NCHW)
-        ctx.update_node_shape_dtype(node, override=True)
         op_name = utils.make_name(node.name)
-        ctx.insert_new_node_on_output("Transpose", node.output[0], perm=constants.NCHW_TO_NHWC,
-                                      name=op_name, shapes=shapes, dtypes=dtypes)
+        output_trans = ctx.insert_new_node_on_output("Transpose", node.output[0], perm=constants.NCHW_TO_NHWC,
+                                                     name=op_name)
+        if shape is not None:
+            ctx.set_shape(node.output[0], [shape[i] for i in constants.NHWC_TO_NCHW])
+            ctx.set_shape(output_trans.output[0], shape)
+        ctx.set_dtype(output_trans.output[0], dtype)
 
 
 @tf_op(["MatMul", "BatchMatMul", "BatchMatMulV2", "BatchMatMulV3"])
-- 
2.43.0


From a3f0404e41506ab47ba170b8489391987cf3198a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:18 +0000
Subject: [PATCH 109/123] fix: MatMul of integers is refused before opset 9

---
 tf2onnx/onnx_opset/math.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tf2onnx/onnx_opset/math.py b/tf2onnx/onnx_opset/math.py
index e05fde6..f182b91 100644
--- a/tf2onnx/onnx_opset/math.py
+++ b/tf2onnx/onnx_opset/math.py
@@ -406,11 +406,14 @@ class MatMul:
         attrs_val = [0 if val is None else val.i for val in attrs_val]
 
         dtype = ctx.get_dtype(node.output[0])
+        if ctx.opset < 9:
+            utils.make_sure(dtype not in [onnx_pb.TensorProto.INT32, onnx_pb.TensorProto.INT64],
+                            "Opset 9 is required for MatMul %s of integers", node.name)
         if any(attrs_val[2:]):
             # conjugation operation on complex data not supported in onnx for now
             # so if it's complex than raise exception
             if dtype not in [onnx_pb.TensorProto.FLOAT, onnx_pb.TensorProto.FLOAT16, onnx_pb.TensorProto.DOUBLE]:
-                raise ValueError("dtype " + dtype + " is not supported in onnx matmul for now")
+                raise ValueError("dtype %s is not supported in onnx matmul for now" % dtype)
 
         transpose_a = (attrs_val[0] + attrs_val[2] + attrs_val[4]) % 2
         transpose_b = (attrs_val[1] + attrs_val[3] + attrs_val[5]) % 2
-- 
2.43.0


From 20e1324ae066d98ecbfed03c27bea1a99b6af7cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:18 +0000
Subject: [PATCH 110/123] fix: SAME padding of images of unknown size is
 computed where auto_pad means something else

---
 tf2onnx/onnx_opset/nn.py | 63 +++++++++++++++++++++++++++++++++++-----
 1 file changed, 56 insertions(+), 7 deletions(-)

diff --git a/tf2onnx/onnx_opset/nn.py b/tf2onnx/onnx_opset/nn.py
index 8bae859..63b6f62 100644
--- a/tf2onnx/onnx_opset/nn.py
+++ b/tf2onnx/onnx_opset/nn.py
@@ -196,6 +196,42 @@ def conv_convert_inputs(ctx, node, with_kernel=False, new_kernel_shape=None,
         node.data_format = "NCHW"
 
 
+def insert_same_padding(ctx, node, effective_kernel, strides, spatial):
+    """Pad the input of node as TF's SAME padding does, for sizes only known at runtime."""
+    first_axis = 1 if is_channels_last(node) else 2
+    input_shape = ctx.make_node("Shape", [node.input[0]]).output[0]
+    dims = GraphBuilder(ctx).make_slice({"data": input_shape, "starts": [first_axis], "ends": [first_axis + spatial],
+                                         "axes": [0]})
+
+    def const(val):
+        return ctx.make_const(utils.make_name(node.name + "_pad"), np.array(val, dtype=np.int64)).output[0]
+
+    def calc(op_type, x, y):
+        return ctx.make_node(op_type, [x, y]).output[0]
+
+    # total padding: (ceil(dim / stride) - 1) * stride + kernel - dim
+    steps = calc("Div", calc("Add", dims, const([s - 1 for s in strides])), const(strides))
+    reach = calc("Add", calc("Mul", steps, const(strides)), const([k - s for k, s in zip(effective_kernel, strides)]))
+    total = ctx.make_node("Cast", [calc("Sub", reach, dims)], attr={"to": onnx_pb.TensorProto.FLOAT}).output[0]
+    total = ctx.make_node("Relu", [total]).output[0]
+    total = ctx.make_node("Cast", [total], attr={"to": onnx_pb.TensorProto.INT64}).output[0]
+    begin = calc("Div", total, const([2]))
+    end = calc("Sub", total, begin)
+    before, after = const([0] * first_axis), const([0] * (2 - first_axis))
+    parts = [before, begin, after, before, end, after] if first_axis == 1 else [before, begin, before, end]
+    pads = ctx.make_node("Concat", parts, attr={"axis": 0}).output[0]
+    pad_inputs = [pads]
+    if node.type == "MaxPool":
+        np_dtype = np.dtype(utils.map_onnx_to_numpy_type(ctx.get_dtype(node.input[0])))
+        lowest = -np.inf if np_dtype.kind == "f" else np.iinfo(np_dtype).min
+        pad_inputs.append(ctx.make_const(utils.make_name(node.name + "_pad"), np.array(lowest, dtype=np_dtype)).output[0])
+    shape = ctx.get_shape(node.input[0])
+    padded_shape = shape[:first_axis] + [-1] * spatial + shape[first_axis + spatial:]
+    pad_node = ctx.make_node("Pad", [node.input[0]] + pad_inputs, shapes=[padded_shape],
+                             dtypes=[ctx.get_dtype(node.input[0])])
+    ctx.replace_input(node, node.input[0], pad_node.output[0], 0)
+
+
 def add_padding(ctx, node, kernel_shape, strides, dilations=None, spatial=2):
     padding = node.get_attr("padding")
     if not padding:
@@ -234,7 +270,9 @@ def add_padding(ctx, node, kernel_shape, strides, dilations=None, spatial=2):
             output_shape = make_shape_channels_first(output_shape)
 
         # Check for unknown input/output dimensions. Fall back to auto padding if so.
-        if any(input_shape[i + 2] == -1 or output_shape[i + 2] == -1 for i in range(spatial)):
+        # (not needed where the padding does not depend on the size)
+        if any((input_shape[i + 2] == -1 or output_shape[i + 2] == -1) and strides[i] != 1 and kernel_shape[i] != 1
+               for i in range(spatial)):
             logger.debug(
                 "node %s has unknown dim for pads calculation, fallback to auto_pad: "
                 "input_shape=%s, output_shape=%s",
@@ -243,16 +281,27 @@ def add_padding(ctx, node, kernel_shape, strides, dilations=None, spatial=2):
                 output_shape,
             )
 
-            node.set_attr("auto_pad", "SAME_UPPER")
+            effective_kernel = [dilations[i] * (kernel_shape[i] - 1) + 1 for i in range(spatial)]
+            if all(d == 1 for d in dilations) and all(effective_kernel[i] >= strides[i] for i in range(spatial)):
+                node.set_attr("auto_pad", "SAME_UPPER")
+            else:
+                # auto_pad knows no dilations and nothing between the windows
+                utils.make_sure(ctx.opset >= 11, "Opset 11 is required to pad node %s of unknown size", node.name)
+                utils.make_sure(node.type in ["Conv", "MaxPool"] and len(node.output) == 1,
+                                "padding of node %s of unknown size is not supported", node.name)
+                insert_same_padding(ctx, node, effective_kernel, strides, spatial)
             return
 
         # Calculate paddings.
         for i in range(spatial):
-            pad = (
-                (output_shape[i + 2] - 1) * strides[i]
-                + dilations[i] * (kernel_shape[i] - 1) + 1
-                - input_shape[i + 2]
-            )
+            if strides[i] == 1 or kernel_shape[i] == 1:
+                pad = dilations[i] * (kernel_shape[i] - 1)
+            else:
+                pad = (
+                    (output_shape[i + 2] - 1) * strides[i]
+                    + dilations[i] * (kernel_shape[i] - 1) + 1
+                    - input_shape[i + 2]
+                )
             pad = max(pad, 0)
 
             pads[i] = pad // 2
-- 
2.43.0


From 5a8ccf8f23fe74b1f7c9597b013b904cc08a8372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:18 +0000
Subject: [PATCH 111/123] fix: the padding and output size of transposed
 convolutions follow TensorFlow

---
 tf2onnx/onnx_opset/nn.py | 193 ++++++++++++++++-----------------------
 1 file changed, 81 insertions(+), 112 deletions(-)

diff --git a/tf2onnx/onnx_opset/nn.py b/tf2onnx/onnx_opset/nn.py
index 63b6f62..3b0cab3 100644
--- a/tf2onnx/onnx_opset/nn.py
+++ b/tf2onnx/onnx_opset/nn.py
@@ -503,6 +503,22 @@ class ConvTranspose:
         else:
             input_dims = input_shape[2:2+spatial]
         output_shape_orig = node.output_shapes
+        if "strides" in node.attr:
+            strides = parse_dims_attr(node, node.get_attr("strides").ints, spatial)
+        else:
+            strides = [1] * spatial
+        if "dilations" in node.attr:
+            dilations = parse_dims_attr(node, node.get_attr("dilations").ints, spatial)
+        else:
+            dilations = [1] * spatial
+        kernel_shape = parse_dims_attr(node, node.get_attr("kernel_shape").ints, spatial)
+        padding = node.get_attr_str("padding")
+        explicit_pads = [0] * (spatial * 2)
+        if padding == "EXPLICIT":
+            explicit = node.get_attr_value("explicit_paddings")
+            first = 2 if is_channels_last(node) else 4
+            explicit_pads = list(explicit[first:first + 2 * spatial:2]) + \
+                list(explicit[first + 1:first + 2 * spatial:2])
 
         # output_shape is explicitly specified here and then converted to explicit pads.
         output_shape = get_shape_from_const_or_concat(ctx, node.inputs[0])
@@ -517,135 +533,88 @@ class ConvTranspose:
                     new_output_shape.append(output_shape[4])
 
             utils.make_sure(new_output_shape.count(-1) <= 0, "output dims need to be known")
-            utils.make_sure(all(new_output_shape[i] >= input_dims[i] for i in range(spatial)),
-                            "output dims cannot be smaller than input dims.")
-            if -1 in input_dims:
-                node.set_attr("output_shape", new_output_shape)
-            else:
-                if "strides" in node.attr:
-                    strides = parse_dims_attr(node, node.get_attr("strides").ints, spatial)
-                else:
-                    strides = [1] * spatial
-                if "dilations" in node.attr:
-                    dilations = parse_dims_attr(node, node.get_attr("dilations").ints, spatial)
-                else:
-                    dilations = [1] * spatial
-                kernel_shape = parse_dims_attr(node, node.get_attr("kernel_shape").ints, spatial)
-                total_padding = [-1] * spatial
-                pads = [1] * (spatial * 2)
-                for i in range(spatial):
-                    total_padding[i] = (strides[i] * (input_dims[i] - 1)
-                                        + ((kernel_shape[i] - 1) * dilations[i] + 1)
-                                        - new_output_shape[i])
-                    start_i = i
-                    end_i = i + spatial
-                    pads[start_i] = int(total_padding[i] / 2)
-                    pads[end_i] = total_padding[i] - pads[start_i]
-                node.set_attr("pads", pads)
-                node.set_attr("auto_pad", "NOTSET")
+            pads = [0] * (spatial * 2)
+            output_padding = [0] * spatial
+            for i in range(spatial):
+                effective_kernel = (kernel_shape[i] - 1) * dilations[i] + 1
+                out_dim, in_dim = new_output_shape[i], input_dims[i]
+                if in_dim == -1:
+                    # the input has the size of the convolution's result
+                    if padding == "SAME":
+                        in_dim = -(-out_dim // strides[i])
+                    else:
+                        padded_dim = out_dim + explicit_pads[i] + explicit_pads[i + spatial]
+                        in_dim = (padded_dim - effective_kernel) // strides[i] + 1
+                total_padding = strides[i] * (in_dim - 1) + effective_kernel - out_dim
+                begin = max(total_padding, 0) // 2 if padding == "SAME" else explicit_pads[i]
+                # what the convolution did not reach at the end stays zero
+                end = total_padding - begin
+                pads[i] = begin
+                pads[i + spatial] = max(end, 0)
+                output_padding[i] = max(-end, 0)
+            node.set_attr("pads", pads)
+            node.set_attr("auto_pad", "NOTSET")
+            if any(output_padding):
+                node.set_attr("output_padding", output_padding)
         else:
             utils.make_sure(ctx.opset >= 10, "Opset 10 needed for Conv Backprop Input with non-constant shape")
-            strides = parse_dims_attr(node, node.get_attr('strides').ints, spatial)
-            if 'dilations' in node.attr:
-                dilations = parse_dims_attr(node, node.get_attr('dilations').ints, spatial)
-            else:
-                dilations = [1] * spatial
-            kernel_shape = parse_dims_attr(node, node.get_attr('kernel_shape').ints, spatial)
             new_dims = [-1] * spatial
             for i in range(spatial):
-                new_dims[i] = strides[i] * (input_dims[i] - 1) + ((kernel_shape[i] - 1) * dilations[i] + 1)
+                if input_dims[i] != -1:
+                    new_dims[i] = strides[i] * (input_dims[i] - 1) + ((kernel_shape[i] - 1) * dilations[i] + 1)
             if is_channels_last(node):
                 new_shape = [input_batch_dim] + new_dims + [output_c_dim]
             else:
                 new_shape = [input_batch_dim, output_c_dim] + new_dims
             ctx.set_shape(node.output[0], new_shape)
 
-            use_strides_workaround = any(d > 1 for d in strides)
-            if use_strides_workaround and ctx.opset < 12:
-                # When strides > 1, ONNX and TF have an implementation difference in ConvTranspose. ONNX outputs a
-                # slightly smaller tensor which must be padded with a row of 0s. Pad with dynamic shape requires
-                # opset >= 11 and Max of int64 needs opset >= 12.  Depending on the output_shape, this row of 0s might
-                # be shaved off, in which case TF and ONNX agree.  When output_shape is dynamic it is impossible to
-                # know at conversion time whether this is the case and the workaround is needed.
-                logger.warning("Conv Backprop Input with strides > 1 and non-constant shape has known bug. "
-                               "Workaround requires opset 12.")
-                use_strides_workaround = False
-            input_shape = ctx.make_node("Cast", [node.input[0]], attr={'to': TensorProto.INT64})
+            # When strides > 1, ONNX and TF have an implementation difference in ConvTranspose. ONNX outputs a
+            # slightly smaller tensor which must be padded with a row of 0s. Depending on the output_shape, this
+            # row of 0s might be shaved off, in which case TF and ONNX agree. When output_shape is dynamic it is
+            # impossible to know at conversion time whether this is the case and the workaround is needed.
+            use_strides_workaround = any(d > 1 for d in strides) and not (
+                padding == "SAME" and all((k - 1) * d + 1 >= st for k, d, st in zip(kernel_shape, dilations, strides)))
+            utils.make_sure(not use_strides_workaround or ctx.opset >= 11,
+                            "Opset 11 needed for Conv Backprop Input with strides > 1 and non-constant shape")
+
+            first_axis = 1 if is_channels_last(node) else 2
+            axes = list(range(first_axis, first_axis + spatial))
+            expect_shape = ctx.make_node("Cast", [node.input[0]], attr={'to': TensorProto.INT64})
             output_shape = ctx.make_node("Shape", [node.output[0]])
-            output_h = GraphBuilder(ctx).make_slice(
-                {"data": output_shape.output[0], "ends": [2], "starts": [1], "axes": [0]})
-            output_w = GraphBuilder(ctx).make_slice(
-                {"data": output_shape.output[0], "ends": [3], "starts": [2], "axes": [0]})
-            expect_h = GraphBuilder(ctx).make_slice(
-                {"data": input_shape.output[0], "ends": [2], "starts": [1], "axes": [0]})
-            expect_w = GraphBuilder(ctx).make_slice(
-                {"data": input_shape.output[0], "ends": [3], "starts": [2], "axes": [0]})
-            diff_h = ctx.make_node("Sub", [output_h, expect_h])
-            diff_w = ctx.make_node("Sub", [output_w, expect_w])
-            nonneg_diff_h = diff_h
-            nonneg_diff_w = diff_w
-
-            if use_strides_workaround:
-                const_zero = ctx.make_const(utils.make_name(node.name + "_const_zero"), np.array([0], dtype=np.int64))
-                nonneg_diff_h = ctx.make_node("Max", [diff_h.output[0], const_zero.output[0]])
-                nonneg_diff_w = ctx.make_node("Max", [diff_w.output[0], const_zero.output[0]])
-
-            const_two = ctx.make_const(utils.make_name(node.name + "_const_two"), np.array([2], dtype=np.int64))
-            start_h = ctx.make_node("Div", [nonneg_diff_h.output[0], const_two.output[0]])
-            start_w = ctx.make_node("Div", [nonneg_diff_w.output[0], const_two.output[0]])
-            end_h = ctx.make_node("Add", [start_h.output[0], expect_h])
-            end_w = ctx.make_node("Add", [start_w.output[0], expect_w])
-            if spatial == 3:
-                output_d = GraphBuilder(ctx).make_slice(
-                    {"data": output_shape.output[0], "ends": [4], "starts": [3], "axes": [0]})
-                expect_d = GraphBuilder(ctx).make_slice(
-                    {"data": input_shape.output[0], "ends": [4], "starts": [3], "axes": [0]})
-                diff_d = ctx.make_node("Sub", [output_d, expect_d])
-                nonneg_diff_d = diff_d
-                if use_strides_workaround:
-                    nonneg_diff_d = ctx.make_node("Max", [diff_d.output[0], const_zero.output[0]])
-                start_d = ctx.make_node("Div", [nonneg_diff_d.output[0], const_two.output[0]])
-                end_d = ctx.make_node("Add", [start_d.output[0], expect_d])
-
-                starts = ctx.make_node("Concat", [start_h.output[0], start_w.output[0], start_d.output[0]],
-                                       attr={"axis": 0})
-                ends = ctx.make_node("Concat", [end_h.output[0], end_w.output[0], end_d.output[0]], attr={"axis": 0})
-                slice_axes = ctx.make_const(utils.make_name(node.name + "_const_slice_axes"),
-                                            np.array([1, 2, 3], dtype=np.int64))
+            expect_dims = GraphBuilder(ctx).make_slice({"data": expect_shape.output[0], "starts": [axes[0]],
+                                                        "ends": [axes[-1] + 1], "axes": [0]})
+            output_dims = GraphBuilder(ctx).make_slice({"data": output_shape.output[0], "starts": [axes[0]],
+                                                        "ends": [axes[-1] + 1], "axes": [0]})
+            const_zero = ctx.make_const(utils.make_name(node.name + "_const_zero"), np.array([0.], dtype=np.float32))
+
+            def non_negative(name):
+                # Max of int64 needs opset 12
+                as_float = ctx.make_node("Cast", [name], attr={'to': TensorProto.FLOAT}).output[0]
+                as_float = ctx.make_node("Max", [as_float, const_zero.output[0]]).output[0]
+                return ctx.make_node("Cast", [as_float], attr={'to': TensorProto.INT64}).output[0]
+
+            if padding == "SAME":
+                const_two = ctx.make_const(utils.make_name(node.name + "_const_two"), np.array([2], dtype=np.int64))
+                diff = non_negative(ctx.make_node("Sub", [output_dims, expect_dims]).output[0])
+                starts = ctx.make_node("Div", [diff, const_two.output[0]]).output[0]
             else:
-                starts = ctx.make_node("Concat", [start_h.output[0], start_w.output[0]], attr={"axis": 0})
-                ends = ctx.make_node("Concat", [end_h.output[0], end_w.output[0]], attr={"axis": 0})
-                slice_axes = ctx.make_const(utils.make_name(node.name + "_const_slice_axes"),
-                                            np.array([1, 2], dtype=np.int64))
-
-            slice_node = ctx.make_node("Slice",
-                                       [node.output[0], starts.output[0], ends.output[0], slice_axes.output[0]],
+                starts = ctx.make_const(utils.make_name(node.name + "_starts"),
+                                        np.array(explicit_pads[:spatial], dtype=np.int64)).output[0]
+            ends = ctx.make_node("Add", [starts, expect_dims]).output[0]
+            slice_axes = ctx.make_const(utils.make_name(node.name + "_const_slice_axes"), np.array(axes, dtype=np.int64))
+            slice_node = ctx.make_node("Slice", [node.output[0], starts, ends, slice_axes.output[0]],
                                        shapes=output_shape_orig)
 
             final_node = slice_node
 
             if use_strides_workaround:
-                cz = const_zero.output[0]
-
-                neg_diff_h = ctx.make_node("Neg", [diff_h.output[0]])
-                shrink_h_by = ctx.make_node("Max", [neg_diff_h.output[0], const_zero.output[0]])
-                shb = shrink_h_by.output[0]
-
-                neg_diff_w = ctx.make_node("Neg", [diff_w.output[0]])
-                shrink_w_by = ctx.make_node("Max", [neg_diff_w.output[0], const_zero.output[0]])
-                swb = shrink_w_by.output[0]
-
-                if spatial == 3:
-                    neg_diff_d = ctx.make_node("Neg", [diff_d.output[0]])
-                    shrink_d_by = ctx.make_node("Max", [neg_diff_d.output[0], const_zero.output[0]])
-                    sdb = shrink_d_by.output[0]
-                    pads = ctx.make_node("Concat", [cz, cz, cz, cz, cz, cz, shb, swb, sdb, cz], attr={"axis": 0})
-                    padded_node = ctx.make_node("Pad", [slice_node.output[0], pads.output[0]])
-                else:
-                    pads = ctx.make_node("Concat", [cz, cz, cz, cz, cz, shb, swb, cz], attr={"axis": 0})
-                    padded_node = ctx.make_node("Pad", [slice_node.output[0], pads.output[0]])
-
-                final_node = padded_node
+                shrink = non_negative(ctx.make_node("Sub", [ends, output_dims]).output[0])
+                before = ctx.make_const(utils.make_name(node.name + "_no_pads"),
+                                        np.zeros([spatial + 2 + axes[0]], dtype=np.int64))
+                after = ctx.make_const(utils.make_name(node.name + "_no_pads"),
+                                       np.zeros([spatial + 1 - axes[-1]], dtype=np.int64))
+                pads = ctx.make_node("Concat", [before.output[0], shrink, after.output[0]], attr={"axis": 0})
+                final_node = ctx.make_node("Pad", [slice_node.output[0], pads.output[0]], shapes=output_shape_orig)
 
             downstream_nodes = ctx.find_output_consumers(node.output[0])
             downstream_nodes.remove(output_shape)
-- 
2.43.0


From 2a3bc8d2b8b197ce265ea2c0458023a157fbd491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:18 +0000
Subject: [PATCH 112/123] fix: BiasAdd of channel first data with a computed
 bias

---
 tf2onnx/onnx_opset/nn.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tf2onnx/onnx_opset/nn.py b/tf2onnx/onnx_opset/nn.py
index 3b0cab3..bb5689a 100644
--- a/tf2onnx/onnx_opset/nn.py
+++ b/tf2onnx/onnx_opset/nn.py
@@ -821,13 +821,13 @@ class BiasAdd:
         common.BroadcastOp.version_6(ctx, node, **kwargs)
 
         # on NHWC, bias will broadcast from largest dim, which is default onnx Add op broadcast behavior.
-        if not node.is_nhwc():
+        if node.data_format == "NCHW":
             # however, in NCHW, bias should be at 2nd dim, which by default onnx Add op has no way to know,
             # so it needs being reshaped into 3-dim tensor before add
             shape0 = ctx.get_shape(node.input[0])
             shape1 = ctx.get_shape(node.input[1])
-            if node.inputs[1].type == 'Const' and len(shape1) == 1:
-                new_broadcast_shape = [shape1[0]] + [1] * (len(shape0) - 2)
+            if len(shape0) > 2:
+                new_broadcast_shape = [shape1[0] if shape1 else -1] + [1] * (len(shape0) - 2)
                 shape_name = utils.make_name(node.name)
                 ctx.make_const(shape_name, np.array(new_broadcast_shape, dtype=np.int64))
                 op_name = node.input[1]
-- 
2.43.0


From 1b28371a63eb0240bd35f794f2657d78c0b99b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:18 +0000
Subject: [PATCH 113/123] fix: CropAndResize of opset 10 refuses what RoiAlign
 does not compute

---
 tf2onnx/onnx_opset/nn.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tf2onnx/onnx_opset/nn.py b/tf2onnx/onnx_opset/nn.py
index bb5689a..49ae42e 100644
--- a/tf2onnx/onnx_opset/nn.py
+++ b/tf2onnx/onnx_opset/nn.py
@@ -1263,6 +1263,10 @@ class CropAndResize:
         rois = node.inputs[1].get_tensor_value()
         rois_shape = ctx.get_shape(node.input[1])
         img_shape = ctx.get_shape(node.input[0])
+        utils.make_sure(node.get_attr_str("method") == "bilinear" and min(output_height, output_width) > 1,
+                        "Opset 11 is required for CropAndResize %s by nearest neighbor or to size 1", node.name)
+        utils.make_sure(img_shape is not None and -1 not in img_shape[1:3],
+                        "Opset 11 is required for CropAndResize %s of images of unknown size", node.name)
         transform_rois = np.zeros(list(rois_shape), dtype=np.float32)
         for i in range(rois_shape[0]):
             y1, x1, y2, x2 = rois[i]
@@ -1276,6 +1280,8 @@ class CropAndResize:
             a1 = x1 - 0.5 * spacing_w / (output_width - 1)
             b2 = y2 + 0.5 * spacing_h / (output_height - 1)
             a2 = x2 + 0.5 * spacing_w / (output_width - 1)
+            utils.make_sure(a2 - a1 >= 1 and b2 - b1 >= 1 and np.min(rois[i]) >= 0 and np.max(rois[i]) <= 1,
+                            "Opset 11 is required for CropAndResize %s with tiny boxes or boxes outside of the image", name)
             transform_rois[i][0] = a1
             transform_rois[i][1] = b1
             transform_rois[i][2] = a2
-- 
2.43.0


From 1f5b77d8e09dde1c96a23e84cea358f2e1743799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:18 +0000
Subject: [PATCH 114/123] fix: CropAndResize by nearest neighbor rounds as
 TensorFlow does

---
 tf2onnx/onnx_opset/nn.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tf2onnx/onnx_opset/nn.py b/tf2onnx/onnx_opset/nn.py
index 49ae42e..27564cc 100644
--- a/tf2onnx/onnx_opset/nn.py
+++ b/tf2onnx/onnx_opset/nn.py
@@ -1350,6 +1350,7 @@ class CropAndResize:
         resized_x = g.make_node("Resize", [transposed_x.output[0], final_roi.output[0], const_empty_float.output[0],
                                            final_crop_size.output[0]],
                                 attr={"mode": mode, "extrapolation_value": extrapolation_value,
+                                      "nearest_mode": "round_prefer_ceil",
                                       "coordinate_transformation_mode": "tf_crop_and_resize"})
         recovered_x = g.make_node("Transpose", [resized_x.output[0]], attr={'perm': constants.NCHW_TO_NHWC})
         squeeze_x = GraphBuilder(g).make_squeeze({'data': recovered_x.output[0], 'axes': [0]}, return_node=True)
-- 
2.43.0


From c1797f0de50aa74acebca5c43debca27352956b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:18 +0000
Subject: [PATCH 115/123] fix: Upsample is not used for what it does not do

---
 tf2onnx/onnx_opset/nn.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/tf2onnx/onnx_opset/nn.py b/tf2onnx/onnx_opset/nn.py
index 27564cc..b399dfb 100644
--- a/tf2onnx/onnx_opset/nn.py
+++ b/tf2onnx/onnx_opset/nn.py
@@ -1392,7 +1392,11 @@ class Resize:
         # wants the input to be NHWC - adjust target_shape to this.
         n, h, w, c = shape
         nh, nw = target_shape
-        utils.make_sure(all(i != -1 for i in [nh, nw]), "h and w need to be known")
+        utils.make_sure(all(i != -1 for i in [h, w, nh, nw]), "h and w need to be known")
+        for attr_name in ["align_corners", "half_pixel_centers"]:
+            utils.make_sure(not node.get_attr_value(attr_name), "Opset 11 is required for %s=True for node %s",
+                            attr_name, node.name)
+        utils.make_sure(nh >= h and nw >= w, "Opset 10 is required to resize to a smaller size for node %s", node.name)
         # scaler is nchw
         scaler = [1., 1., float(nh) / h, float(nw) / w]
         node.set_attr("scales", scaler)
@@ -1517,6 +1521,8 @@ class Resize:
                 # scales is nchw
                 # the reason not storing data at raw field is because of the bug:
                 # https://github.com/onnx/onnx/issues/1852
+                utils.make_sure(op_type != "Upsample" or nh >= h and nw >= w,
+                                "Opset 10 is required to resize to a smaller size for node %s", node.name)
                 scale_val = np.array([1.0, 1.0, float(nh) / h, float(nw) / w]).astype(np.float32)
                 scales = ctx.make_const(utils.make_name("scales"), scale_val, raw=False)
             else:
-- 
2.43.0


From 2c75d905537e89b31482d5060f45f37d26cbebc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:18 +0000
Subject: [PATCH 116/123] fix: ExtractImagePatches of an unknown number of
 images

---
 tf2onnx/onnx_opset/nn.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/tf2onnx/onnx_opset/nn.py b/tf2onnx/onnx_opset/nn.py
index b399dfb..03b8a1b 100644
--- a/tf2onnx/onnx_opset/nn.py
+++ b/tf2onnx/onnx_opset/nn.py
@@ -2151,13 +2151,17 @@ class ExtractImagePatches:
         #
         # whereas attempting the same here results in an "Invalid input shape" error for the "Conv" node.
         utils.make_sure(0 not in output_shape, "Empty ExtractImagePatches output is unsupported.")
+        utils.make_sure(-1 not in input_shape[1:] and -1 not in output_shape[1:],
+                        "ExtractImagePatches is only supported for known height, width and channels.")
+        # the batch size may be unknown: it is what remains when the others are known
+        rows = -1 if input_shape[0] == -1 else input_shape[0] * input_shape[3]
         [_, size_rows, size_cols, _] = sizes
 
         # Transform input into [N * C, H, W, 1].
         transformed_input = ctx.make_node("Reshape", inputs=[
             ctx.make_node("Transpose", inputs=node.input, attr=dict(perm=[0, 3, 1, 2])).output[0],
             ctx.make_const(utils.make_name("new_shape"), np.int64([
-                input_shape[0] * input_shape[3],
+                rows,
                 input_shape[1],
                 input_shape[2],
                 1,
@@ -2182,7 +2186,7 @@ class ExtractImagePatches:
 
         # Construct placeholder convolution node and transform into [N * C, K, ?H, ?W].
         convolution = ctx.make_node("Conv", inputs=[transformed_input.output[0], identity_kernel.output[0]],
-                                    shapes=[[input_shape[0] * input_shape[3], output_shape[1], output_shape[2], k]],
+                                    shapes=[[rows, output_shape[1], output_shape[2], k]],
                                     attr=dict(strides=strides, dilations=rates, padding=padding, data_format="NHWC"),
                                     dtypes=node.output_dtypes)
 
-- 
2.43.0


From f94d3a3ae6286cad3253c33098c6816f2816b5e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:18 +0000
Subject: [PATCH 117/123] fix: channel first outputs do not change the other
 uses of the tensor

---
 tf2onnx/tfonnx.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tf2onnx/tfonnx.py b/tf2onnx/tfonnx.py
index ead61de..a313306 100644
--- a/tf2onnx/tfonnx.py
+++ b/tf2onnx/tfonnx.py
@@ -342,10 +342,10 @@ def transpose_outputs(ctx, outputs_as_nchw):
                     logger.warning("transpose_output for %s: shape must be rank 4, ignored" % output_name)
                     ops.append(node)
                     continue
-                # insert transpose
+                # insert transpose, other uses of the tensor keep the layout
                 op_name = utils.make_name(node.name)
-                transpose = ctx.insert_new_node_on_output("Transpose", node.input[0], name=op_name)
-                transpose.set_attr("perm", constants.NHWC_TO_NCHW)
+                transpose = ctx.insert_new_node_on_input(node, "Transpose", node.input[0], name=op_name,
+                                                         perm=constants.NHWC_TO_NCHW)
                 ctx.copy_shape(node.output[0], transpose.output[0])
                 ctx.set_shape(transpose.output[0], np.array(shape)[constants.NHWC_TO_NCHW])
                 ctx.set_shape(output_name, np.array(shape)[constants.NHWC_TO_NCHW])
-- 
2.43.0


From 90c1ad0dca7d155bd5f3bb621f94153ae0d16f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:18 +0000
Subject: [PATCH 118/123] fix: channel first inputs and outputs are those of
 the main graph

---
 tf2onnx/tfonnx.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tf2onnx/tfonnx.py b/tf2onnx/tfonnx.py
index a313306..6d16e62 100644
--- a/tf2onnx/tfonnx.py
+++ b/tf2onnx/tfonnx.py
@@ -513,7 +513,8 @@ def process_graphs(main_g, subgraphs, custom_op_handlers, inputs_as_nchw, output
         outputs_as_nchw = [tensors_to_rename.get(t, t) for t in outputs_as_nchw]
 
     for g in subgraphs:
-        fg = process_parsed_graph(g, custom_op_handlers, inputs_as_nchw, outputs_as_nchw, continue_on_error,
+        # the tensors to transpose are those of the main graph, functions may have others of these names
+        fg = process_parsed_graph(g, custom_op_handlers, [], [], continue_on_error,
                                   custom_rewriter, initialized_tables, is_tflite, dequantize)
         set_function(fg.graph_name, fg)
     g = process_parsed_graph(main_g, custom_op_handlers, inputs_as_nchw, outputs_as_nchw, continue_on_error,
-- 
2.43.0


From 1cf32840a7323b7ea4f792bd78b11e4459c6bede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:18 +0000
Subject: [PATCH 119/123] fix: dilated convolutions are only made of patterns
 that are one

---
 tf2onnx/rewriter/conv_dilations_rewriter.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/tf2onnx/rewriter/conv_dilations_rewriter.py b/tf2onnx/rewriter/conv_dilations_rewriter.py
index d162c8d..e65dece 100644
--- a/tf2onnx/rewriter/conv_dilations_rewriter.py
+++ b/tf2onnx/rewriter/conv_dilations_rewriter.py
@@ -72,6 +72,23 @@ def rewrite_conv_dilations(g, ops):
 
             if conv.get_attr_value("padding") != b"VALID":
                 continue
+            strides = conv.get_attr_value("strides")
+            dilations = conv.get_attr_value("dilations")
+            if any(s != 1 for s in strides or []) or any(d != 1 for d in dilations or []):
+                # the blocks of a strided convolution are not those of its input
+                continue
+            is_nchw = conv.get_attr_value("data_format") in [b"NCHW", b"NCDHW"]
+            if not is_conv_1d:
+                spatial = 3 if conv.type == "Conv3D" else 2
+                if ndims != spatial + (1 if is_nchw else 0) or is_nchw and block_shape1[0] != 1:
+                    # the blocks do not lie in all spatial dimensions, and in no other
+                    continue
+            # nothing else may use what the rewritten nodes compute
+            inner = [(conv, squeeze)] if is_conv_1d else [(conv, batch_to_space)]
+            if is_conv_1d:
+                inner += [(expand, conv), (squeeze, batch_to_space)]
+            if any(g.find_output_consumers(n.output[0]) != [user] or n.output[0] in g.outputs for n, user in inner):
+                continue
 
             if space_to_batch.inputs[2].is_const() and batch_to_space.inputs[2].is_const():
                 paddings = space_to_batch.inputs[2].get_tensor_value(as_list=True)
-- 
2.43.0


From ec240ee2ed2dfd3ef6b827a76e2eea4b8a9237a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:18 +0000
Subject: [PATCH 120/123] fix: Pad is not merged into a convolution with
 explicit padding

---
 tf2onnx/rewriter/conv2d_with_pad_rewriter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tf2onnx/rewriter/conv2d_with_pad_rewriter.py b/tf2onnx/rewriter/conv2d_with_pad_rewriter.py
index ca281f6..d67c1d8 100644
--- a/tf2onnx/rewriter/conv2d_with_pad_rewriter.py
+++ b/tf2onnx/rewriter/conv2d_with_pad_rewriter.py
@@ -37,7 +37,7 @@ def rewrite_conv2d_with_pad(g, ops):
         if mode not in [None, "constant"] or len(pad.input) >= 3:
             continue
         # Conv2D already has a pad
-        if conv.get_attr("padding").s.decode("utf-8") == "SAME":
+        if conv.get_attr("padding").s.decode("utf-8") != "VALID":
             continue
 
         logger.debug("merge pad [%s] into conv [%s]", pad.name, conv.name)
-- 
2.43.0


From c68ea8d133db946131b655d129b6397e634a5c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:18 +0000
Subject: [PATCH 121/123] fix: BiasAdd is not merged into a convolution that is
 an output or of another layout

---
 tf2onnx/rewriter/conv2d_with_add_rewriter.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tf2onnx/rewriter/conv2d_with_add_rewriter.py b/tf2onnx/rewriter/conv2d_with_add_rewriter.py
index fb719b5..3127c3c 100644
--- a/tf2onnx/rewriter/conv2d_with_add_rewriter.py
+++ b/tf2onnx/rewriter/conv2d_with_add_rewriter.py
@@ -41,7 +41,10 @@ def rewrite_biasadd_with_conv2d(g, ops):
             else:
                 conv_inputs = [conv_input[0], conv_input[1], biasadd.input[1]]
 
-            if len(g.find_output_consumers(conv.output[0])) > 1:
+            if len(g.find_output_consumers(conv.output[0])) > 1 or conv.output[0] in g.outputs:
+                continue
+            if (conv.data_format == "NCHW") != (biasadd.data_format == "NCHW"):
+                # the bias does not go along the channels of the convolution
                 continue
             # Remove the Conv and BiasAdd node
             g.remove_node(conv.name)
-- 
2.43.0


From 199fb003c37e2aca0c2fce50ffd473b57a934025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:18 +0000
Subject: [PATCH 122/123] fix: the thresholded relu rewriter uses current
 inputs and float thresholds

---
 tf2onnx/rewriter/thresholded_relu_rewriter.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/tf2onnx/rewriter/thresholded_relu_rewriter.py b/tf2onnx/rewriter/thresholded_relu_rewriter.py
index d0cfa12..5b9d8fd 100644
--- a/tf2onnx/rewriter/thresholded_relu_rewriter.py
+++ b/tf2onnx/rewriter/thresholded_relu_rewriter.py
@@ -5,6 +5,8 @@
 tf2onnx.rewriter - rewrite tensorflow subgraph to onnx ThresholdedRelu op
 """
 
+import numpy as np
+
 from tf2onnx.graph_matcher import GraphMatcher, OpTypePattern
 
 # pylint: disable=missing-docstring
@@ -30,12 +32,17 @@ def rewrite_thresholded_relu(g, ops):
     for match in match_results:
         mul_node = match.get_op("mul")
         cast_node = match.get_op('cast')
-
-        greater_input_edge_name = match.get_tensor('greater_input')
-        mul_input_edge_name = match.get_tensor('mul_input')
-        if greater_input_edge_name == mul_input_edge_name:
-            theta = match.get_op('theta').get_tensor_value()
-            thresholded_relu = g.make_node("ThresholdedRelu", inputs=[mul_input_edge_name], attr={"alpha": theta},
+        greater_node = match.get_op('greater')
+
+        # an earlier match may have replaced the inputs found by the matcher
+        mul_input_edge_name = [i for i in mul_node.input if i not in cast_node.output]
+        if mul_input_edge_name == greater_node.input[:1]:
+            theta = match.get_op('theta').get_tensor_value(as_list=False)
+            if theta.size != 1 or theta.dtype not in [np.float16, np.float32, np.float64] \
+                    or theta.ndim > len(g.get_shape(mul_node.output[0]) or []):
+                continue
+            thresholded_relu = g.make_node("ThresholdedRelu", inputs=mul_input_edge_name,
+                                           attr={"alpha": float(theta.ravel()[0])},
                                            shapes=[g.get_shape(mul_node.output[0])],
                                            dtypes=[g.get_dtype(mul_node.output[0])])
             g.replace_all_inputs(mul_node.output[0], thresholded_relu.output[0], ops=ops)
-- 
2.43.0


From 43c83bac62e8a882efa1e14906c2a311a4098d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:18 +0000
Subject: [PATCH 123/123] fix: the leaky relu rewriter uses current inputs and
 scalar float slopes

---
 tf2onnx/rewriter/leakyrelu_rewriter.py | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/tf2onnx/rewriter/leakyrelu_rewriter.py b/tf2onnx/rewriter/leakyrelu_rewriter.py
index ec42294..ca07452 100644
--- a/tf2onnx/rewriter/leakyrelu_rewriter.py
+++ b/tf2onnx/rewriter/leakyrelu_rewriter.py
@@ -5,6 +5,8 @@
 tf2onnx.rewriter - rewrite tensorflow subgraph to onnx leakyrelu op
 """
 
+import numpy as np
+
 from tf2onnx.graph_matcher import GraphMatcher, OpTypePattern
 
 # pylint: disable=missing-docstring
@@ -28,14 +30,20 @@ def rewrite_leakyrelu(g, ops):
     for match in match_results:
         max_node = match.get_op('max')
         mul_node = match.get_op("mul")
-
-        max_input_edge_name = match.get_tensor('max_input')
-        mul_input_edge_name = match.get_tensor('mul_input')
-        if max_input_edge_name == mul_input_edge_name:
-            alpha = match.get_op("alpha").get_tensor_value()
-            if alpha >= 1:
+        alpha_node = match.get_op("alpha")
+
+        # an earlier match may have replaced the inputs found by the matcher
+        max_input_edge_name = [i for i in max_node.input if i not in mul_node.output]
+        mul_input_edge_name = [i for i in mul_node.input if i not in alpha_node.output]
+        if len(max_input_edge_name) == 1 and max_input_edge_name == mul_input_edge_name:
+            alpha = alpha_node.get_tensor_value(as_list=False)
+            if alpha.size != 1 or alpha.dtype not in [np.float16, np.float32, np.float64] \
+                    or alpha.ndim > len(g.get_shape(max_node.output[0]) or []):
+                continue
+            alpha = float(alpha.ravel()[0])
+            if not alpha < 1:
                 continue
-            leakyrelu = g.make_node("LeakyRelu", inputs=[max_input_edge_name], attr={"alpha": alpha},
+            leakyrelu = g.make_node("LeakyRelu", inputs=max_input_edge_name, attr={"alpha": alpha},
                                     shapes=[g.get_shape(max_node.output[0])], dtypes=[g.get_dtype(max_node.output[0])])
             ops.append(leakyrelu)
             g.replace_all_inputs(max_node.output[0], leakyrelu.output[0], ops=ops)
-- 
2.43.0

