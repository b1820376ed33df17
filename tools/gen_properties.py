#!/usr/bin/env python3
"""Writes properties.jsonl (kept as code so that the long texts stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=state or [],
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe, hook_needed=None)))

ALL = ["nnj/" + f for f in "linear.py conv2d.py tanh.py relu.py sigmoid.py sinusoidal.py softplus.py truncexp.py l2norm.py reshape.py flatten.py upsample.py maxpool2d.py sequential.py skipconnection.py abstract_jacobian.py abstract_diagonal_jacobian.py".split()]

prop("C01", "Every module computes the same function as its torch.nn counterpart",
 "For every supported layer configuration, nesting and input, calling a module returns the value (same shape, same dtype) of the corresponding torch composition: Linear, Conv2d, MaxPool2d, Upsample, Tanh, ReLU, Sigmoid, Softplus and Sequential as in torch.nn, sine, exponential, reshape/flatten of the non-batch dimensions, x/(||x||+eps) per sample for L2 normalisation, and a skip connection concatenating its input and its branch along dimension 1. Ordinary autograd through the module gives the same input and parameter gradients as through that torch composition (the truncated exponential backpropagates exp(x) with x clamped to [-15, 15]).",
 ["inputs", "configurations", "programs"],
 "every layer configuration (bias, kernel, padding, pooling stride/padding/dilation/ceil, beta/threshold, eps), every well-shaped nesting of Sequential and SkipConnection, every batch size, input value and float dtype",
 "The tests never compare a forward value with torch: they take the module's own forward as ground truth for the derivative, so a wrong forward with a consistent derivative passes; they use about 30 fixed networks.",
 ALL, [("forward methods", "nnj/*.py forward; inherited torch.nn forward"), ("autograd function of the truncated exponential", "nnj/truncexp.py")],
 ["module(x)", "loss.backward() through module(x)"])

prop("C02", "jacobian() of every single layer is the true derivative of the layer",
 "For every single (non-composite) layer, input and dtype, the Jacobian with respect to the input is the batch of (outputs x inputs) matrices of derivatives that autograd obtains for that layer's torch counterpart, sample by sample, and the Jacobian with respect to the weight is the (outputs x parameters) matrix in the layer's parameter order (weight, then bias). Layers without parameters return None for the weight. This includes saturated, zero, tied, tiny and huge inputs and non-default options such as beta/threshold, eps, rectangular kernels, and overlapping, padded, dilated or ceil-mode pooling.",
 ["inputs", "configurations"],
 "every supported single-layer configuration, input shape of the layer's rank, batch size >= 1, input value, memory layout and float dtype",
 "The tests use 4 random float32 inputs per shape and default options only (no beta/threshold/eps, no overlapping pooling, no rectangular kernel, no zero or tied input) with a 1e-4 absolute tolerance.",
 ["nnj/" + f for f in "linear.py conv2d.py tanh.py relu.py sigmoid.py sinusoidal.py softplus.py truncexp.py l2norm.py reshape.py flatten.py upsample.py maxpool2d.py".split()],
 [("hand-written Jacobians", "each layer's jacobian()")], ["layer.jacobian(x, val, wrt)"])

prop("C03", "jacobian() of any nested network is the chain-rule derivative",
 "For every nesting of Sequential and SkipConnection around the layers, the Jacobian with respect to the input and with respect to all parameters equals the derivative of the whole network as a function of that input or of the flattened parameter vector, with rows in the flattened output order and parameter columns in the order of the network's parameter list. Networks without parameters have weight Jacobian None.",
 ["programs", "inputs", "configurations"],
 "every well-shaped network built from the layers with arbitrary depth, nesting, position of parametric layers and of skip connections, every batch size and input",
 "The tests fix about 12 networks with at most two nesting levels; the quantifier ranges over all networks and inputs.",
 ["nnj/sequential.py", "nnj/skipconnection.py", "nnj/abstract_jacobian.py", "nnj/abstract_diagonal_jacobian.py"],
 [("reverse accumulation over layers", "Sequential.mjp"), ("identity/zero block concatenation", "SkipConnection.jacobian, SkipConnection.mjp")],
 ["model.jacobian(x, val, wrt)"],
 [dict(name="feature maps", meaning="layer inputs and outputs of the latest forward pass", where="Sequential.forward")])

prop("C04", "jvp and vjp equal the Jacobian times the vector, for every module",
 "For every layer or nested network, jvp returns J v and vjp returns v^T J for the true Jacobian J of the module at x, with respect to the input or the flattened weight, one vector per sample, flattened shapes. Consequently the two are adjoint (<J v, w> = <v, J^T w>), linear in the vector, and vjp with respect to the weight is the per-sample gradient that autograd gives, also on networks far too large to form J. Modules without parameters return None for the weight.",
 ["inputs", "programs", "configurations"],
 "every module supporting the pass (convolution, pooling and upsampling have no forward vector pass and refuse it), every x, every vector, every batch size and dtype",
 "The tests compare against the library's own jacobian() at batch size 1 with float32 random vectors; a common error in both is invisible and batch mixing cannot show.",
 ALL, [("layer-wise forward / backward propagation", "jvp and vjp of every class")], ["module.jvp(...)", "module.vjp(...)"])

prop("C05", "jmp and mjp equal the Jacobian times the matrix, for any row/column count",
 "For every layer or nested network, jmp returns J M for a batch of matrices with any number of columns and mjp returns M J for any number of rows, J being the true Jacobian at x with respect to input or flattened weight. The result is the stack of the corresponding vector products, column by column or row by row. Modules without parameters return None for the weight.",
 ["inputs", "programs", "configurations"],
 "every module supporting the pass, every x and matrix including a single row or column and more rows than outputs, every batch size and dtype",
 "The tests use exactly 120 rows/columns, batch size 1, and the library's own Jacobian as the reference.",
 ALL, [("matrix propagation", "jmp and mjp of every class")], ["module.jmp(...)", "module.mjp(...)"])

prop("C06", "Forward metric pass jmjTp equals J M J^T in all diagonal/full modes",
 "For every module supporting it, jmjTp returns J M J^T for the true Jacobian J with respect to the input or weight and any square, possibly non-symmetric M; a metric given as its diagonal means that diagonal matrix, and asking for the diagonal returns exactly the diagonal of the full answer. For networks with several parametric layers the weight metric is used block-diagonally, one block per layer: given as (nested) list of blocks or as full matrix whose cross-layer entries are ignored. A module without parameters contributes None.",
 ["inputs", "programs", "configurations"],
 "all four full/diagonal combinations, both differentiation targets, all supporting modules and nestings, every x, M, batch size and dtype",
 "The tests use batch size 1 and a handful of networks, never a full matrix for a multi-layer network and compare against the library's own Jacobian.",
 ALL, [("metric push-forward", "jmjTp of every class")], ["module.jmjTp(...)"])

prop("C07", "Backward metric pass jTmjp equals J^T M J in all diagonal/full modes",
 "For every module, jTmjp returns J^T M J for the true Jacobian J with respect to the input or weight and any square, possibly non-symmetric M on the outputs; a metric given as its diagonal means that diagonal matrix, and asking for the diagonal returns exactly the diagonal of the full answer. With respect to the weight of a Sequential the full answer is returned as the list, in layer order and nested like the network, of the diagonal blocks of J^T M J for the parametric layers, and the diagonal answer is the concatenation in parameter order. A module without parameters returns None for the weight.",
 ["inputs", "programs", "configurations"],
 "all four full/diagonal combinations, both differentiation targets, all modules and nestings, every x, M, batch size and dtype, both convolution back-propagation modes",
 "The tests use batch size 1 (so per-sample mixing is invisible), the constant metric for the diagonal input case, and the library's own Jacobian.",
 ALL, [("metric pull-back", "jTmjp of every class")], ["module.jTmjp(...)"])

prop("C08", "Approximate metric passes drop off-diagonals between layers, and nothing else",
 "With diagonal back-propagation switched on (diagonal in, diagonal out), a metric pass through a network equals carrying only a diagonal through the layers one by one: each layer maps a diagonal d to the exact diagonal of its own J diag(d) J^T (forward) or J^T diag(d) J (backward), skip connections concatenate or add the branch's and the identity's diagonals, and each parametric layer's weight entry is the exact diagonal of its own weight pass. Hence for a single layer, or when every layer's Jacobian is diagonal, it equals the exact diagonal, and non-negative diagonals stay non-negative.",
 ["inputs", "programs", "configurations"],
 "every nested network, both directions, both differentiation targets, every x, diagonal, batch size and dtype",
 "No existing test turns diag_backprop on at all.",
 ["nnj/sequential.py", "nnj/skipconnection.py", "nnj/linear.py", "nnj/conv2d.py", "nnj/maxpool2d.py", "nnj/upsample.py", "nnj/abstract_jacobian.py", "nnj/abstract_diagonal_jacobian.py"],
 [("diag_backprop flag threading", "Sequential.jTmjp/jmjTp, SkipConnection.jTmjp/jmjTp"), ("diag -> diag branches", "each layer")],
 ["module.jTmjp(..., diag_backprop=True)", "module.jmjTp(..., diag_backprop=True)"])

prop("C09", "An omitted matrix or metric means the identity, everywhere",
 "Passing None as the matrix of jmp/mjp returns the Jacobian itself, and passing None as the metric of jmjTp/jTmjp gives the same result as passing the identity metric explicitly (J J^T and J^T J), for every supporting module and nesting, input shape, differentiation target, diagonal/full output and approximate mode.",
 ["inputs", "programs", "configurations"],
 "every module, input rank, batch size, wrt, to_diag and diag_backprop setting with None",
 "The tests always pass an explicit matrix; the documented None default is never exercised.",
 ALL, [("None defaults", "jmp/mjp/jmjTp/jTmjp of every class")], ["module.jmp(x, val, None)", "module.jTmjp(x, val, None, ...)"])

prop("C10", "Results depend only on x, the weights and the direction, not on call history",
 "The result of any Jacobian or product call is determined by the input, the current weights and the given vector/matrix: it is the same whether the correct output val is passed or omitted, and whatever sequence of forward passes on other inputs, products, weight changes, or use of the same layer objects elsewhere (in the same or other networks) happened before. Repeating a call gives the same answer and repeated calls do not accumulate retained tensors.",
 ["histories", "inputs", "programs"],
 "every interleaving of forward calls, weight updates and products on several inputs and several networks that may share parameter-free layer objects",
 "The tests call each product right after nothing else and pass val=None, so stale cached feature maps or pooling indices can never be seen.",
 ["nnj/sequential.py", "nnj/skipconnection.py", "nnj/maxpool2d.py", "nnj/log_likelihoods.py"],
 [("recomputation of the forward pass when the recorded one is not for x", "Sequential"), ("pooling indices", "MaxPool2d")],
 ["module.<product>(x, val, ...) after arbitrary call histories"],
 [dict(name="feature maps", meaning="activations of the latest forward pass", where="Sequential.forward"), dict(name="pooling indices", meaning="argmax of pooling windows", where="MaxPool2d.forward")])

prop("C11", "Products have no side effects on arguments, weights, gradients or global state",
 "No forward, Jacobian, product, likelihood or conversion call modifies the tensors passed to it (input, output, vector, matrix, list of blocks, target), the module's parameters, their accumulated gradients and requires_grad flags, the train/eval mode, the random generator state, the default dtype or the autograd grad mode. Products return tensors that carry no autograd graph of their own and share no memory with the parameters (a pass that is the identity may hand back the given direction itself).",
 ["inputs", "programs", "histories"],
 "every public call, every module and nesting, every argument layout, and every history",
 "No test looks at the arguments, parameters, gradients or global state after a call.",
 ALL + ["nnj/log_likelihoods.py", "nnj/utils.py"], [("no_grad decorators and out-of-place arithmetic", "all product methods")], ["argument and parameter snapshots around every public call"])

prop("C12", "Samples in a batch are independent",
 "For every module and every Jacobian, product or metric pass, the result for sample i of a batch equals the result of the same call on that sample alone with its own vector/matrix: permuting, duplicating, splitting or concatenating batches permutes, duplicates, splits or concatenates the results, and changing one sample never changes another sample's result.",
 ["inputs", "programs", "configurations"],
 "every batch size from 1 up, every module, pass, flag combination and pair of samples, including batches mixing extreme and ordinary samples",
 "All product tests use batch size 1, so no cross-sample effect can be seen.",
 ALL, [("batched einsum / convolution / index arithmetic", "all product methods")], ["module.<product> on a batch and on its sub-batches"])

prop("C13", "Precision and dtype of the model are preserved",
 "For a model and inputs in float64 every forward, Jacobian, product, metric, likelihood and conversion result is float64 and accurate to float64 rounding; for float32 every result is float32, and for bfloat16 and float16 models every product, metric and likelihood result keeps that dtype. No module, option or pass fails or loses precision because of the dtype.",
 ["inputs", "configurations", "programs"],
 "every float dtype, every module, option (including both convolution modes) and pass",
 "The tests only ever run float32 with an absolute tolerance of 1e-4.",
 ALL + ["nnj/log_likelihoods.py"], [("dtype of internally created tensors", "torch.zeros/ones/eye in all product methods")], ["dtype and float64 error of every public result"])

prop("C14", "The flat weight vector is one coordinate system for the whole library",
 "get_weight returns a snapshot vector of all parameters in the same coordinate order that every weight Jacobian, product and metric uses, whatever the memory layout of the parameters, and set_weight installs a vector so that get_weight returns it and the module computes with it, round-tripping exactly; afterwards neither the module nor the vectors handed in or out influence each other. Moving the weights by a small step h v changes the output by h times jvp(v) to first order, and the gradient-step loop of the documentation performs exact gradient descent.",
 ["inputs", "programs", "histories"],
 "every network nesting, every weight vector, and every sequence of get/set/forward/product calls",
 "get_weight and set_weight are not tested at all.",
 ["nnj/abstract_jacobian.py", "nnj/sequential.py", "nnj/skipconnection.py", "nnj/linear.py", "nnj/conv2d.py"],
 [("flattening of the parameter list", "AbstractJacobian.get_weight / set_weight")], ["module.get_weight()", "module.set_weight(w)", "weight axis of all products"])

prop("C15", "Log-likelihood values and gradients are exact and finite",
 "For every model, input and target the Gaussian, binary Bernoulli and categorical likelihood modules return the per-sample log-likelihood of the target under the model output (Gaussian: -1/2 squared error; binary: independent logits; categorical: logits along the last dimension), and their gradient with respect to weight or input is its exact derivative. The batch setting returns all samples, their sum or their average, identically for value and gradient. Results stay finite and accurate for logits of any finite size.",
 ["inputs", "configurations", "programs"],
 "every model, batch size, output shape (including outputs with extra dimensions), target (hard or soft), logit magnitude, wrt and aggregation option including the default one",
 "The likelihood modules have no tests.",
 ["nnj/log_likelihoods.py"], [("residual back-propagation", "gradient methods"), ("aggregation", "LogLikelihood")], ["likelihood(x, model, target)", "likelihood.gradient(...)"])

prop("C16", "GGN is the Jacobian-sandwiched Hessian of the log-likelihood",
 "For every model and input, the likelihoods' ggn equals J^T H J where H is the exact Hessian of the log-likelihood with respect to the model output (negative semi-definite) and J the model Jacobian with respect to weight or input: the full form per sample (as blocks per layer for network weights), the diagonal form as its diagonal, the approximate form as the diagonal-only back-propagation of the diagonal of H. Batch aggregation (all samples, sum, average) applies to every form, and results stay finite for logits of any finite size.",
 ["inputs", "configurations", "programs"],
 "every model, likelihood, metric shape, back-propagation mode, aggregation, wrt, output shape and logit magnitude",
 "The likelihood modules have no tests.",
 ["nnj/log_likelihoods.py", "nnj/sequential.py"], [("output Hessians and jTmjp", "ggn methods")], ["likelihood.ggn(...)"])

prop("C17", "Converting a torch.nn.Sequential preserves the function or refuses",
 "For every torch.nn.Sequential (including nested ones) of supported layers, conversion returns a network that computes the same outputs, has the same flattened parameters in the same order and whose Jacobian products are the derivatives of the original model, honouring every layer option (missing bias, kernel, padding, pooling stride/padding/dilation/ceil, softplus beta/threshold, upsampling factor, and the options of layers of the package itself that stand in it). A layer or option that cannot be represented (such as a user class with its own forward, whatever its name) makes conversion or use raise; it never yields a network computing something else. The original model is unchanged.",
 ["programs", "inputs", "configurations"],
 "every torch.nn.Sequential of supported layer types with every option and nesting, and every input",
 "Conversion has no tests.",
 ["nnj/utils.py"], [("layer-by-layer reconstruction and weight transfer", "convert_to_nnj")], ["nnj.convert_to_nnj(model) then forward/products"])

prop("C18", "A custom layer only needs jacobian() to get every product right",
 "A user layer built on the general abstract class that implements forward and jacobian (input, and weight or None) obtains jvp, jmp, jmjTp, vjp, mjp and jTmjp equal to the corresponding expression of its Jacobian in every full/diagonal mode, for any (also rectangular, non-symmetric) Jacobian; a layer built on the diagonal abstract class likewise from its diagonal. Such layers can be placed in Sequential and SkipConnection networks next to built-in ones and the network's products are the chain-rule results.",
 ["programs", "inputs", "configurations"],
 "every custom layer with any Jacobian shape, parametric or not, alone or nested, every product, flag combination and direction",
 "The only layer in the suite using the generic implementation is L2 normalisation, whose Jacobian is square and symmetric, so transposition errors are invisible.",
 ["nnj/abstract_jacobian.py", "nnj/abstract_diagonal_jacobian.py", "nnj/sequential.py"],
 [("generic einsum products", "AbstractJacobian, AbstractDiagonalJacobian")], ["CustomLayer.<product>(...)", "Sequential(CustomLayer, ...).<product>(...)"])

prop("C19", "Unsupported options are refused, never answered wrongly",
 "Whenever a layer accepts an option (convolution stride, dilation, groups, padding larger than the kernel, padding modes; upsampling modes, sizes and fractional or per-axis factors; pooling options) then each Jacobian or product it returns is the true derivative of what its forward computes; combinations it cannot handle raise an error at construction or at the call. Passes documented as missing raise instead of returning a value, and a vector or metric of the wrong size is not silently accepted by convolution, pooling and upsampling backward passes. A linear layer fed with several rows of features per sample either returns the true derivative of what its forward computes or refuses. A network refuses a differentiation target other than input and weight, and approximate metric passes that are not diagonal in and out.",
 ["configurations", "inputs"],
 "every constructor option combination accepted by the torch parent class, every product",
 "The tests only construct supported configurations.",
 ["nnj/conv2d.py", "nnj/upsample.py", "nnj/maxpool2d.py", "nnj/sequential.py", "nnj/skipconnection.py"], [("constructor check of the stride; NotImplementedError branches; shape assertions", "Conv2d, Upsample, MaxPool2d")], ["constructor and product calls with exotic options"])

prop("C20", "Vector and diagonal passes never build Jacobian-sized tensors",
 "For networks of the built-in layers other than L2 normalisation, vjp, jvp and the approximate diagonal metric passes only create tensors whose size is of the order of batch size times the number of activations or parameters of a layer or network, never of the order of inputs times outputs, so cost scales linearly like ordinary back-propagation. Repeating passes does not make memory grow.",
 ["programs", "inputs", "configurations"],
 "every network of such layers and every input size",
 "No test observes intermediate tensors or memory.",
 ALL, [("explicit layer-wise products instead of Jacobian instantiation", "vjp/jvp/jTmjp/jmjTp overrides")], ["every tensor created during a pass"])

prop("C21", "Block-diagonal inversion returns the inverse of each block",
 "For every batch of symmetric positive-definite matrices, or arbitrarily nested list of such batches as produced by the metric passes, the block-diagonal inversion returns the same structure with every matrix replaced by its matrix inverse, leaving the argument unchanged.",
 ["inputs"],
 "every nesting of lists, every batch size and every well-conditioned symmetric positive definite block",
 "The function has no tests.",
 ["nnj/utils.py"], [("Cholesky-based inversion", "invert_block_diagonal")], ["nnj.invert_block_diagonal(blocks)"])

prop("C22", "Copies of a model are complete and independent",
 "A deep copy of a model, a pickled and restored model, or a freshly built model of the same architecture that loads its state dict gives the same outputs and the same Jacobian products as the original for every input, and original and copy do not influence each other: any sequence of forward passes, products or weight changes on one leaves the results and the recorded feature maps of the other unchanged.",
 ["programs", "histories", "inputs"],
 "every network nesting, every copy mechanism and every interleaving of calls on original and copies",
 "No test copies a model.",
 ["nnj/sequential.py", "nnj/skipconnection.py", "nnj/truncexp.py", "nnj/maxpool2d.py"],
 [("recorded feature maps belong to the model instance", "Sequential.forward")], ["copy.deepcopy(model)", "pickle round trip", "load_state_dict"])

prop("C23", "Edited containers behave like freshly built ones",
 "A Sequential built from positional layers or an ordered dictionary can be sliced and edited after construction like torch.nn.Sequential: layers replaced by index or name, inserted, appended, extended, deleted or popped, at the top or in a nested Sequential, before or after it has been used. Afterwards its forward function, Jacobian, every product and metric pass with respect to input and weight, and its flat weight vector are exactly those of a network freshly built from the layers it now holds.",
 ["histories", "programs", "inputs"],
 "every sequence of edits of every network, every layer type and every product",
 "No test edits a network after construction.",
 ["nnj/sequential.py", "nnj/skipconnection.py"], [("list of layers and number of parameters are read from the current modules", "Sequential, SkipConnection")], ["model[k] = layer", "model.append/insert/extend/pop", "del model[k]", "model[a:b]"])

prop("C24", "Concurrent calls on one model do not disturb each other",
 "While the weights do not change, any number of threads may run forward passes, Jacobians, products, metric passes and likelihood calls on the same model, or on networks sharing layer objects, with their own inputs: under every interleaving each call returns exactly what it returns when it runs alone, and no call fails.",
 ["schedules", "inputs", "programs"],
 "every interleaving of any calls of two or more threads on every network",
 "The tests are single-threaded; a sampled schedule of free threads almost never hits a window of a few bytecodes.",
 ["nnj/sequential.py", "nnj/maxpool2d.py", "nnj/skipconnection.py", "nnj/log_likelihoods.py"],
 [("feature maps and pooling indexes are local to the call", "Sequential._compute_feature_maps, MaxPool2d._forward_with_idx")], ["any call on a shared model from two threads"])

prop("C25", "All computation stays on the device of the model and its inputs",
 "With a model and all arguments on one device, every forward, Jacobian, product, metric, likelihood, weight and block-inversion call runs without mixing in tensors of another device and returns its results on that device, with the same values whatever the process-wide default device is. Moving a model to another device moves everything its calls need.",
 ["configurations", "programs", "inputs"],
 "every device pairing (model device, default device), every module and every call",
 "The tests run on the default device only, where a constant created on the wrong device is invisible.",
 ALL, [("device= of every tensor created inside a pass", "all layers and likelihoods")], ["every call on an accelerator, or under torch.set_default_device"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
