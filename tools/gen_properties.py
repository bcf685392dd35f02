#!/usr/bin/env python3
"""Writes ../properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=(), state=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                  why_tests_cant=why,
                  anchors=dict(files=files, state=list(state),
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=list(observe), hook_needed=None)))

L = "src/runtime/cpu/layers/"
K = "src/runtime/cpu/kernels/kernels.cpp"
NOTEST = "The layer tests are not part of the suite that runs here (they need a graph library that is absent)"

prop("C01", "Tensor geometry stays consistent under any history",
 "After any sequence of constructing, allocating, reshaping, copying and assigning tensors, every tensor's shape, strides, element count and emptiness describe one and the same dense row-major layout, with the element count equal to the product of the dimensions even when it exceeds the 32-bit range. Copies of a tensor share geometry and storage with the original, and reshaping keeps the stored elements and their order. Allocating gives a tensor storage of its own, even if it was a view of caller memory before. A shape with a negative dimension, or a reshape to a different element count, is rejected with an exception and leaves the tensor exactly as it was.",
 ["histories", "inputs"], "all histories of tensor operations over several handles, all shapes (rank 1-6, zero and huge dimensions, invalid ones)",
 "Unit tests allocate a handful of fixed shapes once; they never mix operations, use zero or huge dimensions, or check the tensor after a rejected call.",
 ["src/runtime/tensor.cpp", "include/deepworks/tensor.hpp"],
 [("geometry set together in init/reshape", "src/runtime/tensor.cpp"), ("shared descriptor", "include/deepworks/tensor.hpp")],
 ["Tensor::shape/strides/total/empty/data"], [dict(name="descriptor", meaning="shape, strides, total, storage of a tensor", where="src/runtime/tensor.cpp")])
prop("C02", "Tensor copies and views move exactly the right data",
 "Copying a tensor into another of the same shape makes every destination element bit-identical to the source element, writes nothing outside the destination and does not alter the source; a destination that is unallocated or has a different shape is rejected with an exception and left untouched. A tensor built over caller memory reads and writes exactly that memory, element by element, and never frees or reallocates it. Printing a tensor lists all of its elements once, in storage order.",
 ["inputs", "histories"], "all shapes, contents (any bit pattern), views at any offset, chains of copies",
 "The tests copy two small tensors and look at one view; they cannot cover sizes, offsets, rejected calls and neighbouring memory.",
 ["src/runtime/tensor.cpp"], [("copyTo", "src/runtime/tensor.cpp"), ("view constructor", "src/runtime/tensor.cpp")], ["Tensor::copyTo", "Tensor(shape, ptr)", "operator<<"])
prop("C03", "NCHW/NHWC conversion is an exact, invertible permutation",
 "Converting a 4-D tensor from channel-first to channel-last layout places element (n,c,h,w) at (n,h,w,c) bit-exactly, and the opposite conversion places it back; each is the other's inverse. Both write every destination element exactly once, write nothing else and leave the source unchanged.",
 ["inputs"], "all 4-D shapes and contents, owned tensors and views",
 "No running test calls the conversions at all.", [K, "include/deepworks/utils/utils.hpp"],
 [("NCHW2NHWC / NHWC2NCHW loops", K)], ["utils::NCHW2NHWC", "utils::NHWC2NCHW"])
prop("C04", "Initialisers fill every element with values from their range",
 "Zero and constant initialisation set every element of the tensor, and nothing else, to the requested value. Uniform initialisation fills every element independently, and anew on every call, with values spread over the whole requested interval and never outside it; Glorot/Xavier initialisation does the same over [-a, a] with a = sqrt(6/(fan_in+fan_out)), where the fans are the two dimensions of a matrix and, for other ranks, the first dimension and the product of the remaining ones.",
 ["inputs"], "all shapes, values and intervals; any state of the random generator",
 "Tests only check zeros/constant on tiny tensors; ranges and spreads are statements about every draw.",
 ["src/initializers.cpp", "src/runtime/tensor.cpp", "src/utils/generator.hpp"],
 [("initializer functions", "src/initializers.cpp"), ("shared generator", "src/utils/generator.hpp")], ["Tensor::zeros/constant/uniform/xavierUniform", "initializer::*"])
prop("C05", "Activation layers compute their documented function",
 "For every input element x, ReLU outputs max(0,x), LeakyReLU outputs x for x>=0 and alpha*x otherwise, ELU outputs x for x>=0 and alpha*(exp(x)-1) otherwise, and Sigmoid outputs 1/(1+exp(-x)), within single-precision rounding, including for very large and very small |x|. The input is never modified, every output element is written and nothing outside the output is.",
 ["inputs", "configurations"], "all tensor shapes and finite contents, all alphas",
 NOTEST + ", and they compare one fixed shape each.", [L + "cpurelu.cpp", L + "cpuleakyrelu.cpp", L + "cpuelu.cpp", L + "cpusigmoid.cpp", K],
 [("element-wise kernels", K)], ["layer forward"])
prop("C06", "Activation gradients match the derivative and accumulate",
 "The backward pass of ReLU, LeakyReLU, ELU and Sigmoid adds to the input gradient exactly the output gradient multiplied by the derivative of the activation at that element (at x=0: 0 for ReLU, 1 for LeakyReLU and ELU), within single-precision rounding. What was in the input gradient before is kept and added to; inputs, outputs and output gradients are not modified.",
 ["inputs", "configurations"], "all shapes, contents, alphas and prior gradient contents",
 NOTEST + "; accumulation onto existing gradients and kinks are never exercised.", [L + "cpurelu.cpp", L + "cpuleakyrelu.cpp", L + "cpuelu.cpp", L + "cpusigmoid.cpp", K],
 [("input-gradient kernels", K)], ["layer backward"])
prop("C07", "Softmax yields exact probabilities and gradients",
 "For every finite 2-D input, however large its entries, each output row of Softmax is finite, non-negative, sums to 1 and equals exp(x_i)/sum_j exp(x_j) within rounding; rows do not influence each other. Its backward pass adds y_i*(g_i - sum_j g_j*y_j) to the input gradient of each row.",
 ["inputs"], "all batch sizes, class counts and finite inputs, including entries of magnitude 1e4",
 NOTEST + "; overflow ranges, single-row and single-class inputs are not sampled.", [L + "cpusoftmax.cpp", K],
 [("max-shifted exponentials", K)], ["layer forward/backward"])
prop("C08", "Linear layer: output and all gradients are the affine map's",
 "The Linear layer maps every sample (all trailing dimensions flattened, in storage order) to x*W^T + b. Its backward pass adds g*W to the input gradient and sets the weight gradient to g^T*x and the bias gradient to the column sums of g, whatever those parameter gradients held before; parameters, inputs and output gradients are unchanged. This holds for every call on the same layer, also when the batch size or the parameter values change between calls.",
 ["inputs", "configurations", "histories"], "all batch sizes, input ranks 2-4, widths, contents; sequences of calls on one layer",
 NOTEST + ", and they use one shape and one call.", [L + "cpulinear.cpp", K, "src/expression/nn.cpp"],
 [("matrix products over mapped tensors", K)], ["layer forward/backward/updateGradients"])
prop("C09", "Convolution output equals the definition",
 "For every input size, channel count, kernel, zero padding and stride (independently per axis), the Convolution layer's output is the 2-D cross-correlation of the zero-padded input with the weights plus bias, with spatial size floor((in+2*pad-kernel)/stride)+1. This holds for every sample of the batch and every call on the same layer, also when batch size or image size change between calls.",
 ["inputs", "configurations", "histories"], "all image/kernel/padding/stride combinations with kernel <= padded input; call sequences",
 NOTEST + " and they sample a few symmetric configurations.", [L + "cpuconvolution.cpp", K],
 [("im2col + matrix product", K), ("per-call scratch buffer", L + "cpuconvolution.cpp")], ["layer forward"])
prop("C10", "Convolution gradients are the adjoint of its forward map",
 "After a forward pass, Convolution's backward adds to the input gradient, and sets weight and bias gradients to, exactly the partial derivatives of sum(output*g) with respect to input, weights and bias, for every kernel, padding, stride (also when stride exceeds the kernel or does not divide the input evenly), channel count and batch size. Prior input gradients are kept and added to, prior parameter gradients are replaced.",
 ["inputs", "configurations", "histories"], "all configurations, contents, prior gradients; repeated forward/backward with changing batch",
 NOTEST + " and they sample a few symmetric configurations.", [L + "cpuconvolution.cpp", K],
 [("col2im scatter", K), ("batch reduction of weight/bias gradients", K)], ["layer backward/updateGradients"])
prop("C11", "Max pooling selects true maxima and routes gradients to them",
 "For every kernel, stride and padding (padding smaller than the kernel), each MaxPooling output is the maximum over the real input cells its window covers, padding never winning even when all values are negative. Backward adds each output gradient to exactly one input cell that attains its window's maximum, summing where windows overlap, and leaves every other cell's gradient as it was.",
 ["inputs", "configurations", "histories"], "all shapes, windows and contents (ties, all-negative), prior gradients, call sequences",
 NOTEST + "; none uses padding with negative data.", [L + "cpumaxpooling.cpp", K],
 [("im2col with fill value, argmax indices", K)], ["layer forward/backward"])
prop("C12", "Global average pooling and Add: values and gradients",
 "GlobalAvgPooling outputs, per sample and channel, the mean over all spatial positions, and its backward adds g/(H*W) to every position. Add outputs the element-wise sum of its two inputs, and its backward adds the output gradient once to each input's gradient (twice when both inputs are the same tensor).",
 ["inputs", "configurations"], "all shapes and contents, prior gradients, aliased inputs",
 NOTEST + ".", [L + "cpuglobalavgpooling.cpp", L + "cpuadd.cpp", K],
 [("pooling and add kernels", K)], ["layer forward/backward"])
prop("C13", "Batch normalisation statistics and outputs over any history",
 "In training mode BatchNorm1D/2D normalise each feature (channel) by the mean and biased variance of the current batch, output gamma*(x-mean)/sqrt(var+eps)+beta, and update running statistics to alpha*old+(1-alpha)*batch. In evaluation mode they use the running statistics and change nothing. This holds for every sequence of training and evaluation calls on one layer, with changing batch sizes and image sizes.",
 ["histories", "inputs", "configurations"], "all sequences of train/eval calls, batch and image sizes, eps, alpha, gamma, beta",
 NOTEST + "; they make one call per layer object.", [L + "cpubatchnorm1d.cpp", L + "cpubatchnorm2d.cpp", K],
 [("running statistics buffers", K), ("scratch buffers re-created on shape change", L + "cpubatchnorm1d.cpp")], ["layer forward", "running_mean/running_var buffers"])
prop("C14", "Batch normalisation gradients are those of the batch statistics",
 "After a training-mode forward pass, BatchNorm1D/2D backward adds to the input gradient the exact derivative through the batch mean and variance, and sets the gamma and beta gradients to sum(g*normalised x) and sum(g) per feature. Earlier content of the input gradient is kept and added to, for every batch size, image size and number of previous calls on the same layer.",
 ["inputs", "configurations", "histories"], "all shapes, contents, prior gradients, repeated forward/backward with changing batch",
 NOTEST + "; gradients are checked once on a zeroed buffer.", [L + "cpubatchnorm1d.cpp", L + "cpubatchnorm2d.cpp", K],
 [("input/parameter gradient kernels", K)], ["layer backward/updateGradients"])
prop("C15", "Dropout keeps, drops and scales consistently",
 "In training mode every Dropout output element is either 0 or the input divided by (1-p), each call drawing a fresh mask in which elements are dropped independently with probability p; in evaluation mode the output equals the input exactly. The backward pass adds to the existing input gradient the output gradient scaled by the same 1/(1-p) exactly where the last training forward kept the element, and adds nothing where it dropped.",
 ["inputs", "histories", "configurations"], "all shapes, contents, p in [0,1), sequences of train/eval calls, any generator state",
 NOTEST + "; statements about every element and about frequencies are not sampled.", [L + "cpudropout.cpp", K],
 [("uniform mask compared with p", K)], ["layer forward/backward"])
prop("C16", "Layer results do not depend on earlier calls",
 "Running any layer on given inputs yields the same outputs, input gradients and parameter gradients whether the layer object is fresh or has already processed any sequence of other inputs and batch sizes, and whether other layer objects were used in between; the only state that carries over is batch normalisation's running statistics. Repeating a call in evaluation mode gives identical results and changes no parameter or buffer.",
 ["histories", "inputs"], "all layer types, interleaved call histories over several layer objects",
 "Every existing test creates a layer, calls it once and throws it away.", [L],
 [("scratch buffers inside layer objects", L)], ["layer forward/backward/updateGradients"])
prop("C17", "Shape inference, parameter creation and rejection of bad layers",
 "For every layer and input shape, the shape announced when building the network is the shape the computation really produces, and the parameters created (weights, bias, gamma, beta, running statistics) have the shapes and initial values documented for that layer; building a layer from a type name and attributes gives the same result as constructing it directly. Unknown type names, missing attributes, a wrong number of inputs, mismatched Add inputs, inputs of a rank the layer does not support and convolution or pooling windows that cannot be placed on the input (non-positive kernel or stride, negative padding, kernel larger than the padded input) are rejected with an exception, when the layer is built or at the latest when it is run. Running an element-wise, softmax, batch-normalisation or linear layer on a wrong number of tensors, an element-wise layer on an output of another shape than the input, a softmax or batch-normalisation layer on tensors of another rank or a linear layer on one-dimensional tensors is rejected with an exception too, and so is asking a convolution or max-pooling layer for gradients before it was run forward. One layer object may be applied to several inputs; the applications then share its parameters and running statistics, which applying it again does not change, and an input they do not fit is rejected.",
 ["configurations", "inputs"], "all layer types, attributes and input shapes, valid and invalid",
 "Only a few fixed networks are built in tests, and those do not run here.", ["src/expression/nn.cpp", "include/deepworks/base_op.hpp", "src/expression/call.cpp", "src/expression/placeholder.cpp"],
 [("outShape/init per operation", "src/expression/nn.cpp"), ("make_layer table", "src/expression/nn.cpp")], ["Placeholder::shape", "make_layer", "layer params/buffers"])
prop("C18", "Cross-entropy loss and gradient match the definition",
 "For predicted probabilities p and integer class targets t, the cross-entropy loss returns -(1/N)*sum_i log p[i][t_i], and its backward writes -1/(N*p[i][t_i]) at the target entries and 0 everywhere else, replacing what was there. This holds for every batch size and class count and for any sequence of calls on one loss object with changing shapes; predictions and targets are not modified and inconsistent shapes are rejected with an exception.",
 ["inputs", "histories"], "all batch sizes, class counts, probabilities in (0,1], targets; call sequences",
 "Three fixed 2-D examples are compared with torch.", ["src/loss.cpp", K],
 [("log buffer reused across calls", "src/loss.cpp"), ("target to flat index", K)], ["CrossEntropyLoss::forward/backward"])
prop("C19", "Accuracy metrics count correct rows exactly",
 "accuracy returns the number of rows whose (first) largest prediction is at the target label divided by the number of rows, and accuracyOneHot does the same with the position of each target row's (first) largest entry as label. This holds for every number of rows and classes; both leave their arguments unchanged and reject inconsistent shapes with an exception.",
 ["inputs"], "all row/class counts, contents including ties and negative scores",
 "Each metric is tested on one 3x4-ish example.", ["src/metrics.cpp"],
 [("row-wise argmax", "src/metrics.cpp")], ["metric::accuracy", "metric::accuracyOneHot"])
prop("C20", "SGD and momentum updates follow their formulas at every step",
 "Each SGD step replaces every trainable parameter w by w - lr*grad; each momentum step replaces its velocity v by gamma*v + lr*grad and w by w - v, per parameter, starting from v=0 for every new optimizer. This holds at every step of any training history in which gradients, the learning rate and the set of trainable parameters change between steps: frozen parameters are not touched, gradients are never modified and the learning rate in force is the one last set.",
 ["histories", "inputs"], "all parameter sets and step histories with lr changes and freezing",
 "Tests run a few steps at one learning rate on one network with nothing frozen.", ["src/optimizer.cpp", "include/deepworks/optimizer.hpp", "src/model/parameter.cpp"],
 [("step loops", "src/optimizer.cpp"), ("velocity per parameter name", "src/optimizer.cpp")], ["SGD::step", "SGDMomentum::step", "Parameter::data/grad"])
prop("C21", "Adam follows its bias-corrected recurrence at every step",
 "Adam's step t updates m = b1*m+(1-b1)*g and v = b2*v+(1-b2)*g^2 per parameter and replaces w by w - lr*mhat/(sqrt(vhat)+eps), with mhat = m/(1-b1^t) and vhat = v/(1-b2^t), where t counts all steps taken plus the initial iteration count given at construction. This holds for every history of gradients, learning-rate changes and freezing (frozen parameters keep value and moments), for every beta, epsilon and starting iteration; gradients are never modified.",
 ["histories", "inputs", "configurations"], "all parameter sets, hyper-parameters and step histories, including hundreds of steps",
 "Tests compare a few steps with default hyper-parameters.", ["src/optimizer.cpp", "include/deepworks/optimizer.hpp"],
 [("moving moments and bias correction", "src/optimizer.cpp")], ["Adam::step", "Parameter::data"])
prop("C22", "DataLoader delivers full, correctly paired batches per epoch",
 "For a dataset of N samples and batch size B, every epoch yields exactly floor(N/B) full batches and then reports the end once, after which the next epoch starts over; without shuffling, batch k of an epoch holds samples k*B..k*B+B-1 in order, and with shuffling every batch holds B distinct valid samples and every sample can occur in it. Each row of the data batch holds exactly the sample whose label is in the same row of the label batch; empty tensors are allocated with the right shape and wrongly shaped ones rejected with an exception.",
 ["histories", "inputs", "configurations"], "all dataset sizes, batch sizes, sample shapes, shuffle modes, several epochs",
 "No test exercises the loader.", ["src/dataloader.cpp", "include/deepworks/dataloader.hpp"],
 [("position counter and reset", "src/dataloader.cpp"), ("index selection", "src/dataloader.cpp"), ("per-sample views into the batch", "src/dataloader.cpp")], ["DataLoader::pull"])
prop("C23", "Decoded images hold exactly the file's pixels",
 "Reading a valid PNG (any size, grey, grey+alpha, RGB, RGBA or palette, any bit depth, interlaced or not) or JPEG (grey or colour, any quality and size) yields a height x width x channels tensor whose elements are the 0-255 pixel values in row, column, channel order: for PNG exactly the stored samples (expanded to 8 bits per channel), for JPEG exactly what the reference decoder produces. Reading into a pre-allocated tensor of the right element count gives the same values, and one of another count is rejected with an exception.",
 ["inputs"], "all image sizes, colour types, bit depths, interlacing, qualities and contents",
 "Two images checked into the repository are read.", ["src/io/image_reader.cpp", "include/deepworks/image_reader.hpp"],
 [("libpng/libjpeg row decoding into the tensor", "src/io/image_reader.cpp")], ["io::ReadImage"])
prop("C24", "Unreadable image files raise an exception and nothing worse",
 "Reading a file that is missing, empty, truncated, corrupted, not an image, or of an unsupported extension always ends in an exception or, for damage that libpng/libjpeg tolerate, in the tensor of the pixels they decode; a file whose pixel data they cannot decode is always refused. Reading never terminates the process, never reads or writes memory out of bounds and leaks neither memory nor open files. A later read of a valid image works as if nothing had happened.",
 ["fault_sequences", "inputs"], "all truncation points and byte corruptions of generated PNG/JPEG files, missing paths, histories mixing bad and good reads",
 "One wrong-extension test exists; corrupted inputs are never tried.", ["src/io/image_reader.cpp"],
 [("error handling around libpng/libjpeg", "src/io/image_reader.cpp")], ["io::ReadImage", "process state"])
prop("C25", "Model forward equals evaluating its graph layer by layer",
 "For every network built from the supported layers, including branches, re-used intermediate results, the same value used twice, several inputs and several outputs in any order, and models that start at intermediate values of a larger expression, running the model produces in each requested output exactly what evaluating the layer definitions along the graph produces for the given inputs, positionally matched. Inputs and parameters are not modified and repeated runs with new inputs give results for the new inputs only. Single layers switched to evaluation mode in a training model behave as in evaluation, the others as in training.",
 ["programs", "inputs", "histories"], "all DAGs of supported layers up to a size, multi-input/multi-output, repeated runs",
 "Only straight chains and two fixed networks exist in tests, and those do not run here.", ["src/model/model.cpp", "src/model/graphbuilder.cpp", "src/runtime/cpu/cpubackend.cpp"],
 [("expression unrolling into a graph", "src/model/graphbuilder.cpp"), ("topological execution over bound memory", "src/runtime/cpu/cpubackend.cpp")], ["Model::forward"])
prop("C26", "Model backward yields the true gradient of every parameter",
 "After a training-mode forward, running the model backward with output gradients sets every trainable parameter's gradient to the derivative of sum_k <output_k, g_k> with respect to that parameter, for every network graph: where a value feeds several layers its gradient contributions are summed, and layers in front of a value given as model input take no part. Frozen (not trainable) linear and convolution parameters do not cut off the gradients of the layers in front of them. Successive backward passes do not leak into each other.",
 ["programs", "inputs", "histories"], "all DAGs with fan-out and several outputs, repeated forward/backward rounds",
 "Only straight chains are compared with torch, and those tests do not run here.", ["src/runtime/cpu/cpubackend.cpp", "src/model/graphbuilder.cpp", L],
 [("gradient buffers zeroed per pass, reverse topological order", "src/runtime/cpu/cpubackend.cpp")], ["Model::backward", "Parameter::grad"])
prop("C27", "Model structure faithfully reflects the expression",
 "A model lists each layer between its inputs and its outputs exactly once, producers before consumers, with given names kept, missing names generated from the type, unique over the model, and duplicates rejected with an exception; every layer can be looked up by name and unknown names are rejected. Its parameter and state collections contain exactly the layers' parameters (and buffers, for the state) under layer.parameter names and share storage with the layers, so that changing one is visible through the other; switching training mode reaches every parameter.",
 ["programs", "configurations"], "all DAGs of supported layers, named and unnamed",
 "One fixed network is inspected in tests, which do not run here.", ["src/model/model.cpp", "src/model/layer.cpp", "src/model/parameter.cpp"],
 [("topological sort and naming", "src/model/model.cpp"), ("shared parameter handles", "src/model/parameter.cpp")], ["Model::layers/getLayer/params/state/train/cfg"])
prop("C28", "Saving and loading a model preserves its behaviour exactly",
 "For every model, saving it and loading it back (as a whole, or as configuration plus state) gives a model with the same layers, names, attributes, inputs and outputs in the same order, and bit-identical parameters and buffers, so that it computes the same outputs; rebuilding from a model's in-memory configuration does too. Loading only the state restores every parameter and buffer bit-exactly into a model of the same structure. Any configuration (any ids, names, shapes and attributes of every kind) and any state dictionary comes back exactly as saved, also when several of them follow each other in one stream.",
 ["programs", "histories", "inputs"], "all DAG models, parameter contents (any bit pattern), save/load sequences",
 "One small chain is saved and loaded in tests, which do not run here.", ["src/serialization.cpp", "src/model/model.cpp"],
 [("binary writer/reader pairs", "src/serialization.cpp"), ("configuration capture and Build", "src/model/model.cpp")], ["save/load/save_cfg/load_cfg/save_state/load_state", "Model::Build"])
prop("C29", "Damaged or mismatched model files are rejected cleanly",
 "Loading a configuration, state or model from a file that is missing, empty, truncated at any point, of the other kind, or from a state holding entries the model lacks or entries of another shape always raises an exception; it never returns as if successful. However a configuration or state file is damaged, loading it neither crashes nor corrupts memory. Saving to a path that cannot be written, or running out of space while saving, raises an exception.",
 ["fault_sequences", "crash_points", "inputs"], "every truncation point of generated files (crash during save), random byte corruption, wrong kinds, mismatched models",
 "Two mismatch examples exist in tests, which do not run here.", ["src/serialization.cpp"],
 [("kind tags, name and shape checks", "src/serialization.cpp")], ["load/load_cfg/load_state"])
prop("C30", "Training runs follow the reference trajectory",
 "Repeating forward, loss, backward and optimizer step on a model changes its parameters and running statistics exactly as the composition of the layer, loss and optimizer definitions prescribes, step after step, within rounding; frozen models and evaluation-mode runs change neither parameters nor running statistics, and with only some parameters frozen these stay and all others are trained as ever.",
 ["histories", "programs"], "generated small networks, data, optimizers and train/eval schedules over several steps",
 "Two fixed networks are compared with torch in tests that do not run here.", ["src/runtime/cpu/cpubackend.cpp", "src/optimizer.cpp", "src/loss.cpp", "src/model/model.cpp"],
 [("shared parameter storage between model, layers and optimizer", "src/model/model.cpp")], ["Model::params/state after each step"])
prop("C31", "Results do not depend on threads; parallel code is race-free",
 "Every layer's outputs and gradients are the same within rounding whatever the number of threads available, and no two threads ever access the same memory conflictingly without synchronisation while a layer runs. Separate layers that share no tensors can be run from several threads at once and compute what each computes alone.",
 ["schedules", "inputs"], "all layers with parallel loops, thread counts 1-8, batch sizes around and above the thread count, thread interleavings",
 "Tests run once with the default thread count and cannot observe data races.", [K, L + "cpuadd.cpp"],
 [("independent iterations over the batch", K), ("independent element updates", L + "cpuadd.cpp")], ["layer forward/backward"])
prop("C32", "Misuse of a model is rejected and leaves no trace",
 "Calling a model's forward or backward before it was compiled, or with a number of input, output or gradient tensors other than the model's, or with a tensor that is unallocated or has another shape than the model's input or output in that position, always raises an exception, and changes no parameter, buffer, parameter gradient, input, output or gradient tensor; the following correct calls compute exactly what they would have computed without the rejected ones. Constructing a model whose outputs depend on a placeholder that is not among its inputs is rejected with an exception.",
 ["histories", "programs", "inputs"], "all DAG models, all histories mixing rejected and correct calls, all ways of getting count and shapes wrong",
 "No test calls a model wrongly.", ["src/model/model.cpp", "src/model/graphbuilder.cpp", "src/runtime/cpu/cpubackend.cpp"],
 [("argument checks before execution", "src/model/model.cpp"), ("binding of caller tensors", "src/runtime/cpu/cpubackend.cpp")], ["Model::forward/backward", "Model(inputs, outputs)"])
prop("C33", "The sample datasets deliver exactly the samples in their files",
 "The dataset readers shipped with the samples (Iris CSV, MNIST idx, CIFAR-10 and CIFAR-100 directories of images) report the number of samples in the files, the shapes they deliver, and for every index, in any order and repeatedly, the sample at that position: image bytes scaled to value/255 in channel-first order, Iris features unchanged, and the label that belongs to the sample (class digit, class name position; for CIFAR-100 one number per class name). Through the data loader every batch row holds such a sample together with its label.",
 ["inputs", "histories"], "all file contents and sizes, all access orders",
 "No test reads a dataset.", ["samples/iris", "samples/MNIST", "samples/CIFAR10", "samples/CIFAR100"],
 [("file parsing and normalisation", "samples"), ("channel reordering", "samples")], ["IDataset::size/shape/pull"])
prop("C34", "The DOT export describes exactly the model",
 "Writing a model as a DOT file produces a syntactically valid directed graph with one node per placeholder showing its shape, one node per layer showing its name and type, and one edge per connection between them in the direction of the data with its port number, for every model graph and every layer name, including names with quotes, spaces, backslashes or line breaks. The model is not changed by it, and a path that cannot be written raises an exception.",
 ["programs", "inputs"], "all DAG models and layer names",
 "No running test exports a model.", ["src/serialization.cpp"],
 [("graph traversal and text output", "src/serialization.cpp")], ["save_dot"])
prop("C35", "Building a model depends only on the graph its configuration describes",
 "Model::Build gives the same model whichever ids the configuration uses and in whichever producers-before-consumers order it lists the operations, in memory or through a file. A configuration that is inconsistent (unknown operation type, missing attribute or one of another type, wrong number of inputs, no outputs, values or outputs that do not exist, an operation reading its own or a later result, undescribed inputs, duplicate layer names, input shapes a layer cannot take) is rejected with an exception, when built from memory as well as when it comes from a configuration or model file; it is never built and never crashes.",
 ["configurations", "inputs"], "all configurations of generated models, equivalent and with one inconsistency",
 "One configuration of a fixed chain is rebuilt in tests that do not run here.", ["src/model/model.cpp", "src/expression/nn.cpp", "src/serialization.cpp"],
 [("id lookup while replaying operations", "src/model/model.cpp"), ("attribute type checks", "include/deepworks/attribute.hpp")], ["Model::Build", "load_cfg", "load"])
prop("C36", "Several models can be used side by side",
 "Whatever models are built, copied, compiled, run forward and backward, switched between training and evaluation, trained and destroyed, in any interleaving: models over different layers never influence each other; copies of a model are handles of the same model; and models built over common layers (other outputs or other inputs of the same expression) share exactly those layers' parameters, running statistics and mode, each still computing the layer definitions with their current values. In particular a model's backward pass gives the gradients of its own last forward run even if other models ran in between, an operation on a model changes nothing that belongs only to others, and destroying a model leaves the others working.",
 ["histories", "programs"], "all interleavings of operations over a few models on shared and separate layers",
 "No test uses two models together, except to copy state from one to the other.", ["src/model/model.cpp", "src/runtime/cpu/cpubackend.cpp", L],
 [("per-model backend memory, shared parameter handles", "src/runtime/cpu/cpubackend.cpp"), ("model handles", "include/deepworks/model.hpp")], ["Model copy/compile/train/forward/backward/params/state"])

prop("C37", "Parameters and layer descriptions are shared handles with stable content",
 "A parameter holds the tensor it was made from, and a gradient of the same shape that is zero at first and in storage of its own, whether it starts trainable or frozen. All copies of a parameter, however made, assigned, swapped or kept in containers, see every change of its values, its gradient and its trainable flag made through any of them, for as long as one of them lives; separate parameters never affect each other, and switching the flag changes neither values nor gradient. Likewise all handles of a layer description, and all layers made from it, show its current name, type, parameters and buffers, and copies of a layer its current inputs and outputs. An attribute returns exactly the value, type and shape it was given from every copy, and raises an exception when asked for another type.",
 ["histories", "inputs"], "all histories over several handles, containers and attributes",
 "Tests create parameters once, and look at them through the handle they changed.", ["src/model/parameter.cpp", "include/deepworks/parameter.hpp", "include/deepworks/layer_info.hpp", "src/model/layer_info.cpp", "src/model/layer.cpp"],
 [("shared implementation behind every handle", "src/model/parameter.cpp"), ("typed any", "include/deepworks/layer_info.hpp")], ["Parameter::data/grad/is_trainable", "Attribute::get/type/shape", "LayerInfo and Layer accessors"])
prop("C38", "Errors describe what failed and stay readable",
 "Every error the library raises derives from std::exception and has a description. The description contains the place that raised it and the text of the violated condition or all values given for it, completely and in the order given, however long it is, whatever other errors are raised, caught or alive in between. It reads the same through every copy, assignment and rethrow of the error, in whichever threads, also several at once; and a description once read stays valid and unchanged as long as its error lives and nothing is added to it.",
 ["histories", "schedules", "inputs"], "all messages, and all histories of creating, extending, reading, copying, throwing and rethrowing errors in several threads",
 "Tests only look whether something is thrown.", ["include/deepworks/utils/assert.hpp", "src/utils/assert.cpp"],
 [("stream and message behind a shared pointer", "src/utils/assert.cpp")], ["DeepWorksException::what", "std::exception::what"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
