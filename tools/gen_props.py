#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the wording)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

# ------------------------------------------------------------------ graph container
p("G01", "Graph edits keep every lookup exact, across nested bodies",
  "After any sequence of public graph-editing calls (adding, removing, rewiring, renaming, inserting nodes, editing inputs and outputs, in a graph and in the bodies nested in it), every query on the graph - node by name, producer of a tensor, all consumers of a tensor including those inside nested bodies, shape, dtype, inputs, outputs - answers exactly what the current set of nodes implies. "
  "A rewire that names a tensor moves exactly the consumers it is documented to move, and a rejected call (duplicate node name, missing input) leaves the graph as it was.",
  ["histories"], "all sequences of graph-editing calls on a graph with up to two levels of nested bodies",
  "Unit tests perform a handful of fixed edits; the redundant indexes can only go stale after particular sequences of edits that mix parent and body graphs.",
  ["tf2onnx/graph.py"],
  [("redundant indexes by name / producer / consumer / body user", "tf2onnx/graph.py: Graph.reset_nodes, make_node, remove_node, _register_input_name, _unregister_input_name"),
   ("rewiring", "tf2onnx/graph.py: Graph.replace_all_inputs, replace_input, replace_inputs, insert_new_node_on_input, insert_node_on_output")],
  ["tf2onnx.graph.Graph public methods"],
  [("node indexes", "nodes, by-name map, producer map, consumer map, parent-tensor-to-body map", "tf2onnx/graph.py: Graph.__init__")])

p("G02", "Topological order: valid for every acyclic graph, error for every cycle",
  "Sorting a graph's nodes always yields an order in which every node comes after the producers of all tensors it uses, including tensors that only its nested bodies use. "
  "If the graph has a dependency cycle the sort reports an error instead of returning an order, and the order depends only on the graph (names and edges), not on the order in which nodes were added or listed.",
  ["inputs", "histories"], "all graphs up to a bounded number of nodes, with multi-output nodes, multi-edges, body-implicit inputs and cycles, under every listing order",
  "Tests sort only graphs produced by ordinary conversions, which never have cycles or adversarial listing order.",
  ["tf2onnx/graph.py", "tf2onnx/utils.py"],
  [("depth-first sort", "tf2onnx/graph.py: Graph.topological_sort"), ("dependency sort of tflite subgraphs", "tf2onnx/utils.py: topological_sort")],
  ["Graph.topological_sort, Graph.make_graph, utils.topological_sort"])

p("G03", "Generated names never collide",
  "Every name the converter generates for a new node or tensor differs from every name already used in the model being built or edited, including a model it did not generate itself but loaded, however many names were generated before. "
  "Converting or optimizing therefore never makes two different tensors share one name.",
  ["histories", "inputs"], "all sequences of loads, name requests and edits; loaded models whose own names look like generated ones anywhere (nodes, outputs, inputs, initializers, bodies)",
  "Tests load models whose names come from one conversion in a fresh process.",
  ["tf2onnx/utils.py", "tf2onnx/graph.py"],
  [("global name counter", "tf2onnx/utils.py: make_name"), ("counter initialisation on load", "tf2onnx/graph.py: GraphUtil.create_graph_from_onnx_model, initialize_name_counter")],
  ["utils.make_name, GraphUtil.create_graph_from_onnx_model, optimizer.optimize_graph"])

p("G04", "Loading and re-exporting an ONNX model preserves it",
  "Loading a valid ONNX model into the graph representation and exporting it again, without edits, gives a valid model that computes the same outputs for the same inputs and has the same inputs (those without a default value) and outputs (names, order, element types, known dimensions), opset imports, and operator domains and attributes, including inside nested bodies. "
  "The same holds for the optimize-in-place entry point when optimizations find nothing to do or fail, where the result must be the original model.",
  ["inputs", "configurations"], "all models over the supported opsets: initializers, default-valued inputs, custom domains, nested bodies using outer tensors, optional empty inputs/outputs, unused inputs, duplicated outputs",
  "Tests load a few fixed models and look at operator counts.",
  ["tf2onnx/graph.py"],
  [("import", "tf2onnx/graph.py: GraphUtil.create_graph_from_onnx_graph"), ("export", "tf2onnx/graph.py: Graph.make_graph, make_model"), ("model optimizer entry point", "tf2onnx/graph.py: GraphUtil.optimize_model_proto")],
  ["GraphUtil.create_graph_from_onnx_model, Graph.make_model, GraphUtil.optimize_model_proto"])

p("G05", "Large-model export stores every large tensor once and losslessly",
  "When a model is exported with external tensor storage, every constant tensor with more elements than the threshold, at any nesting depth and of any element type except strings (which ONNX only keeps inline), is written to its own uniquely named file, smaller ones stay inline, and a model read back from the archive has exactly the original tensor values. "
  "The written archive contains every file the model refers to and nothing else.",
  ["inputs", "histories"], "all sets of constants: sizes around the threshold, all element types, names that coincide after sanitising, shared and nested constants",
  "Tests save one or two float tensors with clean names.",
  ["tf2onnx/graph.py", "tf2onnx/utils.py"],
  [("external storage", "tf2onnx/graph.py: ExternalTensorStorage, Node.get_onnx_attributes / get_attr_value handling"), ("archive", "tf2onnx/utils.py: save_onnx_zip, model_proto_from_zip")],
  ["Graph.make_model(external_tensor_storage=...), utils.save_onnx_zip, utils.model_proto_from_zip"])

p("G06", "Pattern matching finds exactly the subgraphs that fit the pattern",
  "The pattern matcher reports a match at a node exactly when the tree of producers below it fits the pattern (operator types, alternatives, wildcards, number of inputs, argument order unless order is declared free), and every reported node plays the role the match assigns to it. "
  "The outcome does not depend on the order in which the graph lists its nodes.",
  ["inputs"], "all small graphs and all patterns of bounded depth over a small operator alphabet, with and without free argument order",
  "Rewriter tests only exercise the few shipped patterns on graphs built to match them.",
  ["tf2onnx/graph_matcher.py"],
  [("matcher", "tf2onnx/graph_matcher.py: GraphMatcher._match_pattern, OpTypePattern, MatchResult")],
  ["GraphMatcher.match_op, match_ops"])

# ------------------------------------------------------------------ optimizers
MO = "Optimizer tests assert operator counts and one random input for fixed little graphs; the rewrites' side conditions (rank, axis sign, broadcast shape, other consumers, graph outputs) span far more combinations than the samples."
p("O01", "Moving and cancelling transposes never changes what a model computes",
  "For every valid ONNX model, optimizing transposes gives a valid model with the same outputs (values, shapes, element types) for every input. "
  "This holds for every operator a transpose is pushed through (elementwise and broadcasting operators, concatenation, split, slice, pad, reductions, squeeze, reshape, quantization, shape and so on), for any rank, permutation, axis sign, broadcast shape, shared consumer or intermediate graph output, in the main graph and in bodies.",
  ["programs", "inputs", "configurations"], "all models built from the supported operators around transposes; ranks 1-5, all permutations, all opsets with different attribute forms; every tensor has at least one element",
  MO, ["tf2onnx/optimizer/transpose_optimizer.py"],
  [("per-operator push-down handlers", "tf2onnx/optimizer/transpose_optimizer.py: TransposeOptimizer")],
  ["optimizer.optimize_graph, GraphUtil.optimize_model_proto"])
p("O02", "Constant folding and dequantization folding compute what the nodes would",
  "Replacing operators on constants by a stored result (casts, transposes, reshapes, concatenations, unsqueezes, splits, arithmetic and dequantization of constants) stores exactly the value, shape and element type the operators would have produced at run time, for every attribute and input allowed by the operator's definition at the model's opset. "
  "Constants that something else still uses are left unchanged.",
  ["programs", "inputs", "configurations"], "all models whose foldable operators take constants: any element type, axis sign, zero/-1 dims, uneven splits, per-axis scales, fan-out",
  MO, ["tf2onnx/optimizer/const_fold_optimizer.py", "tf2onnx/optimizer/const_dequantize_optimizer.py"],
  [("constant evaluation", "tf2onnx/optimizer/const_fold_optimizer.py: ConstFoldOptimizer"), ("constant dequantization", "tf2onnx/optimizer/const_dequantize_optimizer.py: ConstDequantizeOptimizer")],
  ["optimizer.optimize_graph"])
p("O03", "Simplifying shape computations keeps every reshape's result shape",
  "When a reshape's target shape is computed in the graph from other tensors' shapes and the optimizer replaces that computation by a simpler one, the reshape still produces the same tensor for every run-time size of the unknown dimensions. "
  "This holds for targets built with any combination of gathering, slicing, concatenating, multiplying, dividing, squeezing, casting and comparing of shape values, and for targets containing 0 or -1.",
  ["programs", "inputs"], "all shape-computing expression graphs of bounded size feeding a reshape, all known/unknown dimension patterns, several run-time sizes each; every tensor has at least one element",
  MO, ["tf2onnx/optimizer/reshape_optimizer.py", "tf2onnx/symbolic_executor.py"],
  [("symbolic shape evaluation", "tf2onnx/symbolic_executor.py: SymbolicExecutor"), ("reshape rewriting", "tf2onnx/optimizer/reshape_optimizer.py: ReshapeOptimizer")],
  ["optimizer.optimize_graph"])
p("O04", "Removing redundant operators never changes what a model computes",
  "Removing identities, merging equal nodes, collapsing consecutive casts, transposes, reshapes and squeeze/unsqueeze pairs, fusing batch normalization into convolution, and simplifying pooling or resizing gives a valid model with the same outputs (values, shapes, element types) for every input. "
  "In particular nodes are merged only if they are guaranteed to produce equal results.",
  ["programs", "inputs"], "all models with such redundant operators, any element types, shared consumers, constants, graph outputs, and nested bodies",
  MO, ["tf2onnx/optimizer/identity_optimizer.py", "tf2onnx/optimizer/merge_duplicated_nodes_optimizer.py", "tf2onnx/optimizer/back_to_back_optimizer.py", "tf2onnx/optimizer/global_pool_optimizer.py", "tf2onnx/optimizer/upsample_optimizer.py"],
  [("identity removal", "tf2onnx/optimizer/identity_optimizer.py"), ("duplicate merging", "tf2onnx/optimizer/merge_duplicated_nodes_optimizer.py"), ("pairs of operators", "tf2onnx/optimizer/back_to_back_optimizer.py"), ("pooling, resizing", "tf2onnx/optimizer/global_pool_optimizer.py, upsample_optimizer.py")],
  ["optimizer.optimize_graph"])
p("O05", "Optimizing quantize/dequantize pairs never changes what a model computes",
  "Inserting, moving or removing quantize and dequantize operators during optimization gives a valid model whose outputs are the same for every input. "
  "Scales, zero points (including their element type) and the per-channel axis keep referring to the right dimension of the tensor after the move.",
  ["programs", "inputs"], "all models with quantize/dequantize pairs around shape and selection operators, per-tensor and per-axis, signed and unsigned; every tensor has at least one element",
  MO, ["tf2onnx/optimizer/q_dq_optimizer.py", "tf2onnx/optimizer/transpose_optimizer.py"],
  [("pair propagation", "tf2onnx/optimizer/q_dq_optimizer.py: QDQOptimizer"), ("transposes through pairs", "tf2onnx/optimizer/transpose_optimizer.py")],
  ["optimizer.optimize_graph"])
p("O06", "Optimization respects nested bodies",
  "For every model with loops or conditionals, optimizing gives a valid model with the same outputs for every input and trip count. "
  "Tensors that a body captures from outside, passes through unchanged, carries between iterations or emits per iteration keep their value, and nothing a body still needs is removed from the enclosing graph.",
  ["programs", "inputs"], "all models with loop/if bodies (nested up to two levels) combining captured tensors, carried state, per-iteration outputs and optimizable operators inside and around the bodies",
  MO, ["tf2onnx/optimizer/loop_optimizer.py", "tf2onnx/optimizer/optimizer_base.py", "tf2onnx/graph.py"],
  [("moving transposes out of loops", "tf2onnx/optimizer/loop_optimizer.py: LoopOptimizer"), ("recursion into bodies", "tf2onnx/optimizer/optimizer_base.py: _apply_optimization"), ("dead-node removal with body uses", "tf2onnx/graph.py: delete_unused_nodes, extract_sub_graph_nodes")],
  ["optimizer.optimize_graph"])
p("O07", "Einsum decomposition equals einsum",
  "For every explicit-output einsum equation the optimizer accepts (one or several operands, any letter order, summed, shared, repeated or size-one dimensions), the decomposed model gives the value and shape of the einsum for every input. "
  "Equations it cannot decompose are left alone or rejected with an error, never converted to something else.",
  ["programs", "inputs"], "all equations over up to five letters with up to three operands",
  "Tests run a fixed list of equations.",
  ["tf2onnx/optimizer/einsum_optimizer.py"],
  [("decomposition", "tf2onnx/optimizer/einsum_optimizer.py: decompose_einsum_equation, GraphEinsumSubOp")],
  ["optimizer.optimize_graph"])
p("O08", "A failing optimization pass never damages the result",
  "With error catching enabled, if any optimization passes fail at any point, in any round, even after partly editing the graph, the result is the graph as it stood before each failing pass with all successful passes applied; without error catching the failure is reported to the caller. "
  "The passes run in the configured order and are repeated until a whole round changes nothing, each enabled pass is run in every round, and optimization terminates.",
  ["fault_sequences", "configurations"], "all sequences of pass outcomes (changed / unchanged / failed before, during, after an edit), all pass lists, catching on and off (argument, environment, entry points)",
  "Tests inject one failure in one optimizer.",
  ["tf2onnx/optimizer/__init__.py", "tf2onnx/optimizer/optimizer_base.py", "tf2onnx/graph.py", "tf2onnx/convert.py"],
  [("pass driver", "tf2onnx/optimizer/__init__.py: optimize_graph"), ("per-pass wrapper", "tf2onnx/optimizer/optimizer_base.py: optimize"), ("original-model fallback", "tf2onnx/graph.py: GraphUtil.optimize_model_proto")],
  ["optimizer.optimize_graph, GraphUtil.optimize_model_proto"])
p("O09", "Dead-code removal keeps exactly what the outputs need",
  "Pruning a graph removes every node that no requested output depends on, and keeps every node an output depends on directly or through nested bodies, as well as the model's declared inputs. "
  "Extracting the nodes above given outputs, optionally stopping at nodes a filter refuses, returns exactly the nodes the outputs depend on through accepted nodes. A set of nodes is reported safe to remove exactly when nothing outside the set, at any nesting depth, uses their outputs.",
  ["inputs", "programs"], "all small graphs with nested bodies, multi-output nodes, unused inputs, several requested outputs, and all node filters",
  "Tests check a single dead node.",
  ["tf2onnx/graph.py"],
  [("pruning", "tf2onnx/graph.py: delete_unused_nodes, extract_sub_graph_nodes, _extract_sub_graph_nodes"), ("removability", "tf2onnx/graph.py: is_safe_to_remove_nodes, safe_to_remove_nodes")],
  ["Graph.delete_unused_nodes, Graph.extract_sub_graph_nodes"])

# ------------------------------------------------------------------ conversion
MC = "Backend tests run one or two fixed shapes and attribute settings per operator at a single opset; the guarantee is over all shapes, attributes, opsets and operator combinations."
p("C01", "Converted arithmetic, comparison, selection and reduction programs agree",
  "For every TensorFlow program built from arithmetic, comparison, logical, rounding, casting, selection, reduction, arg-reduction, cumulative and segment operations that the converter accepts, the ONNX model yields the same outputs (values, shapes, element types) as TensorFlow for every input, at every target opset, whether dimensions are known or not and whether operands are constants or inputs. "
  "Operations documented as supported at a target opset are converted.",
  ["programs", "inputs", "configurations"], "programs of up to four operations, ranks 0-4, all axes/keepdims/attribute settings, opsets 9-18, static and dynamic shapes",
  MC, ["tf2onnx/onnx_opset/math.py", "tf2onnx/onnx_opset/reduction.py", "tf2onnx/onnx_opset/logical.py", "tf2onnx/onnx_opset/common.py", "tf2onnx/onnx_opset/controlflow.py", "tf2onnx/tfonnx.py"],
  [("per-operator per-opset handlers", "tf2onnx/onnx_opset/*.py"), ("pipeline", "tf2onnx/tfonnx.py: process_parsed_graph")],
  ["tf2onnx.convert.from_function"])
p("C02", "Converted shape, indexing and rearrangement programs agree",
  "For every TensorFlow program built from reshaping, transposing, slicing (all mask combinations and step signs), gathering, scattering, concatenating, splitting, stacking, padding, tiling, broadcasting, reversing, one-hot, range, fill and shape-query operations that the converter accepts, the ONNX model yields the same outputs (values, shapes, element types) as TensorFlow for every input, at every target opset, with static or dynamic shapes and constant or computed operands. "
  "Operations documented as supported at a target opset are converted.",
  ["programs", "inputs", "configurations"], "programs of up to four operations, ranks 0-5, all axis signs and masks, opsets 9-18, static and dynamic shapes",
  MC, ["tf2onnx/onnx_opset/tensor.py", "tf2onnx/onnx_opset/generator.py", "tf2onnx/onnx_opset/common.py", "tf2onnx/graph_builder.py", "tf2onnx/tfonnx.py"],
  [("per-operator per-opset handlers", "tf2onnx/onnx_opset/tensor.py"), ("opset-dependent operator forms", "tf2onnx/graph_builder.py")],
  ["tf2onnx.convert.from_function"])
p("C03", "Converted spatial and matrix programs agree in any data layout",
  "For every TensorFlow program built from convolutions (plain, depthwise, transposed), pooling, bias, batch normalization, padding, space/depth/batch rearrangement, image resizing by nearest neighbour and matrix products that the converter accepts, the ONNX model yields the same outputs as TensorFlow for every input, for every kernel, stride, dilation, padding mode and data layout, at every target opset, with static or dynamic sizes.",
  ["programs", "inputs", "configurations"], "all combinations of kernel size, stride, dilation, padding, layout, channel multipliers on small images, opsets 9-18",
  MC, ["tf2onnx/onnx_opset/nn.py", "tf2onnx/onnx_opset/math.py", "tf2onnx/onnx_opset/tensor.py", "tf2onnx/rewriter/conv2d_with_add_rewriter.py", "tf2onnx/rewriter/conv2d_with_pad_rewriter.py", "tf2onnx/rewriter/conv_dilations_rewriter.py", "tf2onnx/rewriter/gemm_rewriter.py"],
  [("layout conversion and padding", "tf2onnx/onnx_opset/nn.py: conv_convert_inputs, add_padding"), ("fusions", "tf2onnx/rewriter/*.py")],
  ["tf2onnx.convert.from_function"])
p("C04", "Converted loops and conditionals run exactly as in TensorFlow",
  "For every TensorFlow program with while loops, conditionals and tensor arrays, nested in any way, that the converter accepts, the ONNX model gives the same outputs as TensorFlow for every input, including zero iterations, iteration limits, branches not taken, captured outer values, values passed through unchanged, and per-iteration outputs; loops are executed exactly the number of times TensorFlow executes them. "
  "Two uses of one function in a program are converted independently.",
  ["programs", "inputs"], "all structured programs of bounded size over a few integer variables and one array, nesting depth two, all trip counts 0-4",
  "Tests hold about forty fixed loop and cond programs with one input each.",
  ["tf2onnx/onnx_opset/controlflow.py", "tf2onnx/tfonnx.py", "tf2onnx/tf_loader.py", "tf2onnx/rewriter/loop_rewriter_base.py", "tf2onnx/rewriter/loop_rewriter.py", "tf2onnx/rewriter/cond_rewriter.py"],
  [("loop and branch wiring", "tf2onnx/onnx_opset/controlflow.py: While, If, wire_while_body, inline_subgraph"), ("function resolution", "tf2onnx/tf_loader.py: resolve_functions")],
  ["tf2onnx.convert.from_function"])
p("C05", "Models converted from TFLite agree with the TFLite model",
  "For every TFLite model built from arithmetic, comparison, reduction, shape, slicing, gathering, padding, convolution, pooling and control-flow operators that the converter accepts, the ONNX model gives the same outputs as the TFLite model for every input, including fused activations and optional arguments.",
  ["programs", "inputs", "configurations"], "TFLite models compiled from programs of up to four operations with all axis, stride, padding and activation settings",
  "TFLite tests reuse the backend tests' single samples.",
  ["tf2onnx/tflite_utils.py", "tf2onnx/tflite_handlers/", "tf2onnx/tflite_rewriters/", "tf2onnx/tfonnx.py"],
  [("flatbuffer reading", "tf2onnx/tflite_utils.py: parse_tflite_graph"), ("mapping to TF operators", "tf2onnx/tflite_handlers/")],
  ["tf2onnx.convert.from_tflite"])
p("C06", "A converted model has exactly the interface that was asked for",
  "The exported model's inputs and outputs are exactly those requested or declared by the source model, with the requested names, order, element types and the declared dimensions, and each output carries the value of the source output of that name, also when an output is an input or a constant, is listed twice, is used by other operations, or is renamed. "
  "Asking for channel-first inputs or outputs changes exactly those tensors' layout and nothing else, and requesting names that do not exist is an error.",
  ["configurations", "programs"], "all ways to select, reorder, rename inputs and outputs, intermediate tensors as inputs or outputs, channel-first selections, on/off optimization, per entry point",
  "Tests compare default interfaces; combinations of options are not covered.",
  ["tf2onnx/convert.py", "tf2onnx/tfonnx.py", "tf2onnx/graph.py", "tf2onnx/tf_loader.py"],
  [("renaming and layout options", "tf2onnx/tfonnx.py: process_parsed_graph, transpose_inputs, transpose_outputs"), ("interface bookkeeping", "tf2onnx/graph.py: Graph.__init__, make_graph"), ("entry points", "tf2onnx/convert.py")],
  ["tf2onnx.convert.from_function, from_graph_def, tf2onnx.tfonnx.process_tf_graph"])
p("C07", "Every exported model is well formed for its declared opset",
  "Every model the converter or optimizer exports is well formed: each tensor is produced once and before its use, every operator exists in a declared opset at that version with allowed attributes and input count, every operator domain used is declared exactly once, the declared opset is the requested one, and the file-format version fits it. "
  "Tensor names in nested bodies do not clash with the names they can see outside.",
  ["programs", "configurations"], "all generated programs x all target opsets x extra opsets and custom domains",
  "Tests convert at one opset per run and rely on the runtime accepting the model.",
  ["tf2onnx/graph.py", "tf2onnx/handler.py", "tf2onnx/schemas.py", "tf2onnx/constants.py", "tf2onnx/onnx_opset/"],
  [("export", "tf2onnx/graph.py: make_graph, make_model"), ("opset choice", "tf2onnx/handler.py: create_mapping")],
  ["the exported ModelProto"])
p("C08", "The handler used is the newest one not newer than the target opset",
  "For every registered operator and every requested set of domain versions, the converter uses the handler registered for that operator with the highest version not exceeding the requested version of its domain, additional or user-supplied handlers take precedence over built-in ones when their domain is requested, and operators with no applicable handler are reported as unsupported. "
  "The choice depends only on what is registered and requested, not on earlier requests.",
  ["histories", "configurations"], "all registration histories over a few operators, versions and domains, and all requests",
  "Tests convert at one opset per run, so most version boundaries are not exercised.",
  ["tf2onnx/handler.py", "tf2onnx/tfonnx.py"],
  [("registry and mapping", "tf2onnx/handler.py: tf_op, create_mapping, find_effective_op")],
  ["handler.tf_op.create_mapping, tf_op.find_effective_op, tf2onnx.convert with custom handlers"])
p("C09", "Each node is converted exactly once and every failure is reported",
  "During a conversion every source node, in the main graph and in nested bodies, is handed to its operator's handler exactly once with that operator's registered options, and nodes created by handlers are not converted again unless they ask for it. "
  "Nodes without a handler and handlers that fail never pass silently: each of them is reported in an error that names it, a failing handler makes the call raise unless it was asked to continue, and all the other nodes are still converted.",
  ["programs", "fault_sequences", "configurations"], "all small graphs of nodes whose handlers succeed, fail, add, remove or replace nodes, with bodies, with and without continue-on-error",
  "Tests check one unsupported operator.",
  ["tf2onnx/tfonnx.py", "tf2onnx/handler.py"],
  [("mapping pass", "tf2onnx/tfonnx.py: tensorflow_onnx_mapping"), ("rewriter runner", "tf2onnx/tfonnx.py: run_rewriters")],
  ["tfonnx.tensorflow_onnx_mapping, tf2onnx.convert"])
p("C10", "A conversion does not depend on what was converted before it",
  "The result of a conversion or optimization is the same up to generated names whatever conversions, failed conversions, optimizations or registrations with other options happened earlier in the process, and repeating it gives an equal model. "
  "The caller's models, option lists and handler tables are left unchanged.",
  ["histories"], "all sequences of conversions (succeeding and failing; tf functions, graph defs, tflite; opsets; custom handlers; extra opsets) before a probe conversion",
  "Each test looks only at its own conversion.",
  ["tf2onnx/convert.py", "tf2onnx/tfonnx.py", "tf2onnx/handler.py", "tf2onnx/tf_loader.py", "tf2onnx/optimizer/einsum_optimizer.py"],
  [("process-wide tables", "tf2onnx/handler.py: tf_op._OPSETS; tf2onnx/tf_loader.py: _FUNCTIONS; tf2onnx/utils.py: INTERNAL_NAME"), ("entry points", "tf2onnx/convert.py")],
  ["tf2onnx.convert.from_function, from_graph_def, GraphUtil.optimize_model_proto"])
p("C11", "The command line and the Python API agree with their documentation",
  "The command line accepts exactly the documented forms of input names with shapes, opset and domain lists, shape overrides, rename lists and layout lists, and passes to the conversion exactly what was written; malformed values are rejected with an error. "
  "Converting the same saved model through the command line and through the API with equivalent options gives equal models up to generated names.",
  ["inputs", "configurations"], "all strings over the option grammar up to a bounded length and all option combinations",
  "Tests run two or three command lines end to end.",
  ["tf2onnx/convert.py", "tf2onnx/utils.py"],
  [("argument parsing", "tf2onnx/convert.py: get_args, parse; tf2onnx/utils.py: split_nodename_and_shape, find_opset")],
  ["tf2onnx.convert.main, tf2onnx.convert.get_args"])
p("C12", "Declared tensor types and shapes never contradict the values at run time",
  "Whatever element type, rank or dimension the exported model declares for an input, output or intermediate tensor, at any opset and after any optimization, every execution that satisfies the declared input types produces a value of that type and those dimensions. "
  "Dimensions that can vary between runs are never declared as fixed.",
  ["programs", "inputs", "configurations"], "all generated programs x static/dynamic/override input shapes x several run-time sizes",
  "Tests compare values only; a wrong declared shape is noticed only if the runtime rejects it.",
  ["tf2onnx/graph.py", "tf2onnx/shape_inference.py", "tf2onnx/schemas.py", "tf2onnx/utils.py", "tf2onnx/onnx_opset/"],
  [("shape bookkeeping", "tf2onnx/graph.py: set_shape, copy_shape, update_node_shape_dtype"), ("inference", "tf2onnx/shape_inference.py, tf2onnx/schemas.py: infer_onnx_shape_dtype"), ("merging of shapes", "tf2onnx/utils.py: merge_shapes")],
  ["value_info and outputs of the exported model"])
p("C13", "Converted recurrent networks step exactly like their source",
  "For every LSTM or GRU layer the converter accepts, the ONNX model processes each sequence step, direction, stacked layer, initial state and masked sequence length in the same order and returns the same sequence and final-state outputs as the source model. "
  "This holds for every batch size, sequence length including one, and output selection.",
  ["programs", "inputs", "configurations"], "layer type, direction, time-major, return sequence/state, initial state, stacked layers, bias, gate-order variants on small sizes",
  "Recurrent tests use fixed sizes and random weights with loose tolerances and one opset.",
  ["tf2onnx/rewriter/lstm_tf2_rewriter.py", "tf2onnx/rewriter/gru_tf2_rewriter.py", "tf2onnx/rewriter/rnn_utils.py", "tf2onnx/onnx_opset/rnn.py"],
  [("loop-to-recurrent-operator rewriting", "tf2onnx/rewriter/lstm_tf2_rewriter.py, gru_tf2_rewriter.py"), ("bidirectional merge", "tf2onnx/rewriter/bilstm_rewriter.py, bigru_rewriter.py, rnn_utils.py")],
  ["tf2onnx.convert.from_keras, from_function"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))
