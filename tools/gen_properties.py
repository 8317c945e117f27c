#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

L = "pico-cnn/layers/"
prop("C01", "Convolution computes the mathematical (ONNX) convolution for every geometry",
 "For every batch-one 2-D (four-dimensional) or 1-D (three-dimensional) input, running a convolution layer writes, at every position of every output channel, the sum over the input channels of that output channel's group and over the kernel window of weight times zero-padded input, plus that channel's bias if there is one. This holds for every odd kernel size per axis, every stride, every (asymmetric) padding on each side, no padding at all, and every number of channel groups dividing the channels, including depthwise and non-square cases.",
 ["inputs", "configurations"],
 "All input/weight/bias values, all channel counts, spatial sizes, odd kernel sizes, strides per axis, pads per side and group counts for which the output is non-empty.",
 "The unit tests try about a dozen fixed geometries with fixed data, mostly square, symmetric padding and one or two groups; the claim is over the whole product of geometry and data.",
 [L+"convolution.cpp", L+"convolution.h", "pico-cnn/tensor.cpp"],
 [("group/channel loop and accumulation", "pico-cnn/layers/convolution.cpp:Convolution::run"),
  ("2-D window", "pico-cnn/layers/convolution.cpp:Convolution::convolve"),
  ("1-D window", "pico-cnn/layers/convolution.cpp:Convolution::convolve_1d"),
  ("zero padding", "pico-cnn/tensor.cpp:Tensor::expand_with_padding")],
 ["output tensor after run()"])
prop("C02", "Max pooling returns the maximum of each window, ignoring padding",
 "For every 2-D or 1-D input, a max-pooling layer writes to each output position of each batch and channel exactly the largest real (non-padding) input value inside its window, for every kernel size, stride (smaller or larger than the kernel) and per-side padding smaller than the kernel. Padding never contributes a value, so all-negative windows stay negative.",
 ["inputs", "configurations"],
 "All finite input values, batch and channel counts, spatial sizes, kernel sizes, strides and pads (each side smaller than the kernel) with non-empty output.",
 "Tests use four fixed inputs; they do not reach negative data under padding, asymmetric pads, strides that leave a remainder or several batches.",
 [L+"pooling/max_pooling.cpp", L+"pooling/pooling.cpp", "pico-cnn/tensor.cpp"],
 [("window maximum", "pico-cnn/layers/pooling/max_pooling.cpp:MaxPooling::pool"),
  ("padding before pooling", "pico-cnn/layers/pooling/pooling.cpp:Pooling::run")],
 ["output tensor after run()"])
prop("C03", "Average pooling divides by the right element count in every window",
 "For every 2-D or 1-D input, an average-pooling layer writes to each output position of each batch and channel the sum of the real input values in its window divided by the full kernel area when padding is counted, and by the number of real (non-padding) positions in that window when padding is not counted. This holds for every kernel size, stride and per-side padding smaller than the kernel.",
 ["inputs", "configurations"],
 "All finite values, batch/channel counts, spatial sizes, kernel sizes, strides, pads per side (smaller than the kernel), with padding counted, not counted or absent.",
 "Tests fix a handful of square symmetric cases; the border-divisor logic depends on the interaction of size, stride and each side's padding.",
 [L+"pooling/average_pooling.cpp", L+"pooling/pooling.cpp"],
 [("divisor selection", "pico-cnn/layers/pooling/average_pooling.cpp:AveragePooling::pool"),
  ("padding before pooling", "pico-cnn/layers/pooling/pooling.cpp:Pooling::run")],
 ["output tensor after run()"])
prop("C04", "Global pooling reduces exactly the whole channel",
 "For every 2-D or 1-D input, global max pooling writes, for each batch and channel, the largest value of that whole channel, and global average pooling writes the arithmetic mean of that whole channel. Every element of the channel counts and no element of another channel or batch does.",
 ["inputs", "configurations"],
 "All finite values, any position of the extreme element, all batch/channel counts and spatial sizes including width or height one.",
 "The tests look at one or two tensors where the maximum happens to sit at a visited position.",
 [L+"pooling/global_max_pooling.cpp", L+"pooling/global_average_pooling.cpp"],
 [("global maximum", "pico-cnn/layers/pooling/global_max_pooling.cpp:GlobalMaxPooling::pool"),
  ("global mean", "pico-cnn/layers/pooling/global_average_pooling.cpp:GlobalAveragePooling::pool")],
 ["output tensor after run()"])
prop("C05", "Fully connected and matrix multiplication layers compute the product",
 "For every two-dimensional input, a fully connected layer writes input times the transposed weight matrix plus bias (if any), and a matrix multiplication layer writes input times the weight matrix, for every row of the input and every output column. Inputs to the fully connected layer that are not two-dimensional are refused rather than computed wrongly.",
 ["inputs", "configurations"],
 "All finite values, all row counts, input widths and output widths, with and without bias.",
 "Tests use fixed vectors of fixed sizes.",
 [L+"fully_connected.cpp", L+"fully_connected.h"],
 [("gemm", "pico-cnn/layers/fully_connected.cpp:FullyConnected::gemm"),
  ("matmul", "pico-cnn/layers/fully_connected.cpp:MatMul::matmul")],
 ["output tensor after run()"])
prop("C06", "Batch normalization applies each channel's affine map",
 "For every batch-one 2-D or 1-D input, batch normalization writes gamma*(x-mean)/sqrt(variance+epsilon)+beta to every position, with gamma, beta, mean and variance taken from that position's channel. It holds for every channel count, spatial size and epsilon.",
 ["inputs", "configurations"],
 "All finite values, non-negative variances, positive epsilons, channel counts and spatial sizes (non-square, width or height one).",
 "Tests fix two inputs and parameters.",
 [L+"batch_normalization.cpp"],
 [("per channel normalisation", "pico-cnn/layers/batch_normalization.cpp:BatchNormalization::normalize")],
 ["output tensor after run()"])
prop("C07", "Elementwise activations apply their function to every element",
 "ReLU, leaky ReLU, parameterized ReLU, clip, sigmoid, hyperbolic tangent and the identity activation write f(x) for every element of a tensor of any rank, using that element's own slope for the parameterized ReLU. The result at a position depends on no other position, and running with output equal to input gives the same values as running into a separate output.",
 ["inputs", "configurations"],
 "All finite float values (including signed zero, denormals, huge magnitudes) and infinities where the function is defined, all ranks one to four and sizes, all leaks, slopes and clip bounds min<=max.",
 "Tests use a fixed tensor per function.",
 [L+"activation_functions/relu.cpp", L+"activation_functions/clip.cpp", L+"activation_functions/sigmoid.cpp", L+"activation_functions/tan_h.cpp", L+"activation_functions/activation_function.cpp"],
 [("relu family", "pico-cnn/layers/activation_functions/relu.cpp"),
  ("clip", "pico-cnn/layers/activation_functions/clip.cpp:Clip::activate"),
  ("sigmoid", "pico-cnn/layers/activation_functions/sigmoid.cpp:Sigmoid::activate"),
  ("tanh", "pico-cnn/layers/activation_functions/tan_h.cpp:TanH::activate")],
 ["output tensor after run()"])
prop("C08", "Softmax yields the exact probability distribution of its input",
 "For every finite input of any rank and size, softmax writes exp(x_i)/sum_j exp(x_j) at every position: values in [0,1] that sum to one, ordered like the inputs and unchanged when a constant is added to all inputs. No finite input, however large in magnitude, produces NaN, infinity or an all-zero result.",
 ["inputs"],
 "All finite float inputs, all ranks and sizes.",
 "Tests use one small vector; overflow, underflow and large tensors are not reached.",
 [L+"activation_functions/softmax.cpp"],
 [("normalised exponentials", "pico-cnn/layers/activation_functions/softmax.cpp:Softmax::activate")],
 ["output tensor after run()"])
prop("C09", "Local response normalization uses exactly the clamped channel window",
 "For every 2-D input, local response normalization writes x/(bias+alpha/n*sum)^beta, where sum is the sum of squares over the window of channels reaching floor(n/2) below and floor(n/2) above the position's channel (clamped to existing channels) at the same batch, row and column, and bias is one unless given. It holds for odd and even n, for n larger than the channel count, and for every batch.",
 ["inputs", "configurations"],
 "All finite values, channel counts, spatial sizes, batch counts, window sizes n>=1, alpha and beta.",
 "Tests fix one window size and one tensor.",
 [L+"activation_functions/lrn.cpp", L+"activation_functions/lrn.h"],
 [("window clamp and normalisation", "pico-cnn/layers/activation_functions/lrn.cpp:LRN::activate")],
 ["output tensor after run()"])
prop("C10", "Layers are pure: any history of runs changes nothing but the output",
 "For any sequence of constructing, running (on inputs of varying content and size, through any number of live layers in any interleaving) and destroying layers, each run's output is determined by the current input, parameters and configuration alone, whatever the output buffer held before. No run changes its input, its weights or the configuration arrays passed at construction, which may be overwritten or freed once the layer is built. Nothing is read or written outside the tensors involved, and everything a layer allocates is released by the time it is destroyed.",
 ["histories", "inputs"],
 "All histories of construct/run/mutate-input/update-weights/destroy over all layer kinds, with reused and pre-filled output tensors.",
 "Each unit test builds a layer, runs it once into a fresh zeroed tensor and deletes it; state carried between runs, stale output content, aliasing of configuration arrays and leaks are invisible.",
 [L+"layer.cpp", L+"convolution.cpp", L+"pooling/pooling.cpp", "pico-cnn/tensor.cpp"],
 [("owned copies of configuration", "pico-cnn/layers/pooling/pooling.cpp:Pooling::Pooling, pico-cnn/layers/convolution.cpp:Convolution::Convolution"),
  ("temporary padded input and temporary tensor release", "pico-cnn/layers/convolution.cpp:Convolution::run")],
 ["all tensors after every step", "allocated bytes after the history"])
prop("C11", "Tensors behave like row-major arrays under every history of operations",
 "A new tensor of any rank one to four is all zero and reports its shape, element count, byte size, batches, channels, height and width consistently; every multi-index, blob index and channel pointer addresses the same row-major element. Copying, adding tensors, adding one channel, and scaling by a factor have exactly their elementwise effect on the destination and touch nothing else; copying between different element counts is refused. Two tensors compare equal exactly when they have the same rank and shape and all elements agree within the documented tolerance, independent of operand order. Printing a tensor shows its shape and every element in order, in the number format of the stream, which it leaves as it was.",
 ["histories", "inputs"],
 "All histories of construction, element writes through any accessor, copy, add, add-channel, scale, compare and destroy over tensors of ranks one to four and all shapes.",
 "Tests cover a few shapes and single operations; addressing errors that cancel, shape-dependent errors and asymmetric comparison need arbitrary shapes and sequences.",
 ["pico-cnn/tensor.cpp", "pico-cnn/tensor.h", "pico-cnn/utils.h"],
 [("addressing", "pico-cnn/tensor.h:Tensor::access"),
  ("channel pointers", "pico-cnn/tensor.cpp:Tensor::get_ptr_to_channel"),
  ("elementwise operations", "pico-cnn/tensor.cpp:add_tensor/add_channel/mul_with_factor/copy_data_into"),
  ("comparison", "pico-cnn/tensor.h:Tensor::operator==")],
 ["every element of every live tensor after every step"])
prop("C12", "Padding a tensor embeds it unchanged in a border of the given value",
 "Padding a tensor of rank two, three or four by any per-side amounts yields a tensor enlarged by exactly those amounts in which the original values appear unchanged at the offset position in every batch and channel and every other element equals the given border value (zero by default). This holds both when a new tensor is created and when padding into an existing tensor whatever it held before, and leaves the source unchanged.",
 ["inputs", "histories"],
 "All shapes of ranks two to four, per-side pads including zero and asymmetric ones, border values, and prior contents of the destination.",
 "Tests pad a couple of tensors symmetrically into fresh (zeroed) memory.",
 ["pico-cnn/tensor.cpp"],
 [("size computation", "pico-cnn/tensor.cpp:Tensor::expand_with_padding"),
  ("fill and row copy", "pico-cnn/tensor.cpp:Tensor::copy_with_padding_into")],
 ["padded tensor"])
prop("C13", "Concatenation stacks its inputs along the channel axis in order",
 "Concatenating any number of tensors of equal rank (two, three or four) along dimension one yields the tensor whose slices along that dimension are the inputs in order, for every batch, with every input element appearing exactly once and nothing else written. Any other dimension is refused, and the inputs are left unchanged.",
 ["inputs"],
 "All input counts, channel counts per input, batch counts, spatial sizes, ranks two to four, repeated inputs, and prior contents of the destination.",
 "Tests concatenate a few fixed batch-one tensors.",
 ["pico-cnn/tensor.cpp"],
 [("channel copy", "pico-cnn/tensor.cpp:Tensor::concatenate_from")],
 ["destination tensor"])
io = "pico-cnn/io/"
prop("C14", "Reading a weights file restores every parameter bit for bit",
 "For every network description and every parameter value, reading a well-formed binary weights file stores each kernel, bias and normalization array, in file order, bit for bit into the corresponding kernel and bias tensors and reports success. Layers without bias, arrays already stored by an earlier layer (declared with size zero), names of any length and all supported layer types are handled, and tensors the file does not cover are left alone.",
 ["inputs", "configurations"],
 "All sequences of convolution (1-D and 2-D), fully connected, matrix multiplication, transpose, addition and normalization layers, all shapes, all float bit patterns, all layer and model names without newline.",
 "No test reads a weights file at all.",
 [io+"read_binary_weights.cpp", "doc/binary_weight_file_format.md", "onnx_import/backend.py"],
 [("weights parser", "pico-cnn/io/read_binary_weights.cpp:read_binary_weights")],
 ["kernel and bias tensors and return value after reading"])
prop("C15", "Broken weights files are reported, never crash or corrupt memory",
 "For a file that is missing, truncated anywhere, has a wrong magic number, layer type or end marker, or declares array sizes that do not fit the network's tensors, reading weights returns an error indication; it never reports success. For arbitrary file content whose number of arrays fits the network it neither crashes nor reads or writes outside the tensors, and releases the file and all memory.",
 ["inputs", "fault_sequences"],
 "All truncation points, byte corruptions, size-field changes and arbitrary byte strings, for all network descriptions.",
 "No test reads a weights file; error paths are never executed.",
 [io+"read_binary_weights.cpp"],
 [("error paths", "pico-cnn/io/read_binary_weights.cpp:read_binary_weights")],
 ["return value, sanitizer reports, open descriptors and allocated bytes"])
prop("C16", "Reference data files load exactly or are rejected",
 "A well-formed reference input file whose dimensions match the given tensor (rank two, three or four, one batch) and a well-formed reference output file matching a two-dimensional tensor are loaded bit for bit and reported as success. A missing, truncated or corrupted-header file, one with a wrong end marker, or one whose dimensions do not match, is reported as an error without crash, out-of-bounds access or leaked file or memory.",
 ["inputs", "fault_sequences"],
 "All tensor shapes, all float bit patterns, all dimension mismatches, all truncation points and header corruptions, arbitrary byte strings.",
 "No test touches these readers.",
 [io+"read_binary_reference_data.cpp"],
 [("input reader", "pico-cnn/io/read_binary_reference_data.cpp:read_binary_reference_input_data"),
  ("output reader", "pico-cnn/io/read_binary_reference_data.cpp:read_binary_reference_output_data")],
 ["tensor content and return value"])
prop("C17", "MNIST files are decoded exactly, truncated ones are not invented",
 "Reading MNIST images returns min(requested, stored) images, each scaled linearly from 0..255 to the requested range, placed row-major and surrounded by the requested padding of the lower bound; reading labels returns min(requested, stored) labels unchanged. A missing file or one with the wrong magic number yields zero, and a file that ends early never yields images or labels that are not fully in the file.",
 ["inputs", "fault_sequences"],
 "All image sizes, pixel values, paddings, target ranges, request counts relative to the stored count, and all truncation points.",
 "No test touches these readers.",
 [io+"read_mnist.cpp"],
 [("image reader", "pico-cnn/io/read_mnist.cpp:read_mnist_images"), ("label reader", "pico-cnn/io/read_mnist.cpp:read_mnist_labels")],
 ["returned count and arrays"])
prop("C18", "Grey images survive writing and reading; the float dump is lossless",
 "A binary 8-bit (maximum 255) grey-map file is read to exactly its pixels scaled to the requested range with the requested padding, whatever the pixel values; writing any finite image as a grey map produces a valid file of the same size whose pixels are the image's values mapped linearly from its minimum..maximum to 0..255, so that reading it back reproduces the image to within one grey level. A missing, wrong-magic or truncated grey-map file is reported as an error. Writing an image as text floats records the dimensions and every value so exactly that parsing gives back the same bits.",
 ["inputs"],
 "All image sizes, pixel bytes (including those that look like white space), value ranges including constant images and values outside +-1000, paddings and target ranges.",
 "No test touches these readers and writers.",
 [io+"read_pgm.cpp", io+"write_pgm.cpp", io+"write_float.cpp"],
 [("grey-map reader", "pico-cnn/io/read_pgm.cpp:read_pgm"), ("grey-map writer", "pico-cnn/io/write_pgm.cpp:write_pgm"), ("float writer", "pico-cnn/io/write_float.cpp:write_float")],
 ["file bytes, returned image and status"])
prop("C19", "ImageNet means and label files are parsed completely and exactly",
 "Reading a means file returns the three stored values exactly, and a file that is missing, has the wrong magic line or holds fewer than three numbers is reported as an error. Reading a label list returns the lines of the file in order, each complete and without its line end, up to the requested number; reading a validation label list returns, at index k for the k-th image (counting from one, up to the requested number of images), the class written on its line.",
 ["inputs", "fault_sequences"],
 "All float values, all label texts and line counts (with and without final newline), all request counts relative to the line count, all class numbers of one to four digits, missing and truncated files.",
 "No test touches these readers.",
 [io+"read_means.cpp", io+"read_imagenet_labels.cpp", io+"read_imagenet_validation_labels.cpp", "doc/mean_file_format.md"],
 [("means", "pico-cnn/io/read_means.cpp:read_means"), ("labels", "pico-cnn/io/read_imagenet_labels.cpp:read_imagenet_labels"), ("validation labels", "pico-cnn/io/read_imagenet_validation_labels.cpp:read_imagenet_validation_labels")],
 ["returned values, counts and status"])
prop("C20", "JPEG images are decoded to scaled planes of the right size",
 "Reading a JPEG file returns its height and width and three planes holding, row-major, the decoder's blue, green and red samples (grey images repeated in all three) scaled linearly from 0..255 to the requested range. A missing file is reported as an error.",
 ["inputs"],
 "All image sizes (including widths whose row exceeds 64 KiB), grey and colour, qualities and target ranges.",
 "No test touches this reader.",
 [io+"read_jpeg.cpp"],
 [("decoder loop", "pico-cnn/io/read_jpeg.cpp:read_jpeg")],
 ["returned planes, size and status"])
imp = "onnx_import/"
impf = [imp+"onnx_to_pico_cnn.py", imp+"backend.py", imp+"pico_cnn.py", imp+"compute_graph.py", imp+"constprop.py", imp+"memory_manager.py", imp+"memory_allocation.py", imp+"code_templates/"]
prop("C21", "Imported sequential networks compute what the ONNX model defines",
 "For every ONNX model that is a chain of supported layers (convolution, pooling, global pooling, batch normalization, clip, ReLU, LRN, softmax, fully connected, matrix multiplication, addition of a bias, multiplication by a constant, dropout, flatten, reshape), the generated C++ network compiles, loads its generated weights file and, for every input, produces the model's output within floating-point tolerance. This includes the LeNet and perceptron models shipped with the project.",
 ["programs", "inputs"],
 "All chains of supported layers with all attribute values in the supported domain, all weights, all inputs, 1-D, 2-D and vector inputs.",
 "The importer has no tests at all; the build only parses its source.",
 impf,
 [("code generation per operator", "onnx_import/pico_cnn.py"), ("graph processing", "onnx_import/backend.py:BackendRep._export_model"), ("shape propagation", "onnx_import/constprop.py"), ("templates", "onnx_import/code_templates/")],
 ["output tensor of the generated network"])
prop("C22", "Imported branching networks route every tensor to the right consumer",
 "For every ONNX model whose graph branches and joins (residual addition of two or more paths, channel concatenation, values used several times) and reshapes data (transpose, reshape, flatten, squeeze, unsqueeze, pad), the generated network produces the model's output for every input. Shape-only computations (shape, gather, constant, cast, unsqueeze, concat feeding a reshape) are folded to the same result.",
 ["programs", "inputs"],
 "All directed acyclic combinations of supported layers and tensor operations, weights and inputs in the supported domain.",
 "The importer has no tests at all.",
 impf,
 [("graph construction", "onnx_import/compute_graph.py:ComputeGraph.from_onnx"), ("constant folding and removal of no-ops", "onnx_import/backend.py:_remove_constants/_remove_nops"), ("tensor operations", "onnx_import/pico_cnn.py")],
 ["output tensor of the generated network"])
prop("C23", "Every trained parameter reaches its layer bit for bit through import",
 "For every supported model, writing the weights file at import and reading it in the generated network stores each initializer bit for bit in the parameter tensor of every layer that uses it, including initializers shared by several layers, convolutions and fully connected layers with and without bias, 1-D kernels, and batch normalization parameters. The file contains each distinct initializer once.",
 ["programs", "configurations"],
 "All models with any mix and order of parameterised layers, any sharing of initializers, and all float bit patterns.",
 "The importer has no tests; weights reading has no tests.",
 [imp+"backend.py", imp+"memory_allocation.py", io+"read_binary_weights.cpp"],
 [("weights writer", "onnx_import/backend.py:_generate_weights_file"), ("parameter slots", "onnx_import/backend.py:_generate_network_initialization"), ("reader", "pico-cnn/io/read_binary_weights.cpp")],
 ["parameter tensors of the generated network after loading"])
prop("C24", "The importer never silently generates a network with other semantics",
 "For every valid ONNX model, with batch size one (which the importer always sets), including ones that use attributes, operators, shapes or parameter layouts outside the supported set (dilation, automatic padding, ceiling mode, even kernels, transposed or scaled fully connected layers, softmax or concatenation along other axes, broadcasting, tensor factors, other data layouts), the importer either refuses (error exit, no generated network, code that does not compile, or a network that stops with an error when loading or running) or generates a network that computes the model's output. It never yields a network that runs and returns something else.",
 ["programs", "configurations"],
 "All valid models reachable by mutating attributes, shapes, operators and parameter layouts of supported models, with all inputs.",
 "The importer has no tests; silent miscompilation needs an executable reference for arbitrary models.",
 impf,
 [("attribute checks", "onnx_import/pico_cnn.py"), ("rejection", "onnx_import/backend.py:_export_model")],
 ["importer outcome and output tensor of the generated network"])
prop("C25", "Generated networks can be built, run and destroyed in any history",
 "For every imported model, any interleaving of creating networks, loading weights, running them on changing inputs into fresh or reused outputs, and destroying them gives on every run exactly the output that a freshly created network gives for that input. Inputs and parameters are never modified, no memory outside the network's buffers is touched, and destroying a network releases all memory it allocated.",
 ["histories", "programs"],
 "All models in the supported domain, all interleavings of several live instances, repeated runs and repeated weight loading.",
 "No test creates a generated network.",
 impf + [io+"read_binary_weights.cpp"],
 [("buffer allocation", "onnx_import/memory_allocation.py"), ("cleanup", "onnx_import/backend.py:_generate_network_cleanup"), ("layer deletion", "onnx_import/code_templates/layer_delete.cpp")],
 ["outputs, inputs and parameters after each step; allocated bytes at the end"])
prop("C26", "The generated reference program reports agreement exactly when it holds",
 "For every imported model, the generated reference program, given weights, reference input and reference output files, reports that the output is almost equal exactly when every output element is within 0.001 of the reference, and otherwise names each differing position; unreadable or mismatching files make it fail, whatever the length of their paths. The generated dummy program runs the network for the requested number of runs on inputs between 0 and 1, one and the same input for all runs if so requested, and both programs release everything they allocate.",
 ["programs", "inputs"],
 "All models in the supported domain and all reference data: equal, perturbed at any position by more or less than the tolerance, missing, truncated, or of another shape.",
 "No test runs generated programs.",
 [imp+"generate_dummy.py", imp+"code_templates/main_program/reference_input.cpp", imp+"code_templates/main_program/dummy_input.cpp"],
 [("verdict", "onnx_import/code_templates/main_program/reference_input.cpp:main"), ("program generation", "onnx_import/generate_dummy.py")],
 ["exit status and printed verdict"])
prop("C27", "Import depends on the model's meaning, not on names or listing order",
 "Renaming nodes, tensors and initializers (using letters, digits, underscore, dot, slash and colon, such that names stay distinct when the characters . / : are replaced by underscores), leaving node names empty, reordering initializers, listing or not listing initializers among the graph inputs, choosing another valid node order, and changing how tensor data is encoded in the file do not change what the generated network computes. Importing the same model twice generates identical files.",
 ["programs", "configurations"],
 "All supported models and all compositions of these meaning-preserving rewrites.",
 "The importer has no tests.",
 impf,
 [("identifier mapping", "onnx_import/memory_manager.py:Buffer.name, onnx_import/pico_cnn.py"), ("input detection", "onnx_import/compute_graph.py:ComputeGraph.from_onnx")],
 ["generated files and outputs of both networks"])
prop("C28", "Reference tensors converted by the utility load back exactly",
 "For every set of reference tensors stored as ONNX tensor files, the conversion utility writes data files that the library's readers load bit for bit into matching tensors, one output file per input file with the same index. Tensors of unsupported shape, or a directory without reference files, are refused with an error message and produce no data file for that tensor.",
 ["inputs", "configurations"],
 "All four-dimensional batch-one inputs and two-dimensional batch-one outputs, all float values, any number of files, both tensor encodings, unsupported ranks and batch sizes.",
 "The utility has no tests.",
 ["util/parse_onnx_reference_files.py", io+"read_binary_reference_data.cpp"],
 [("writer", "util/parse_onnx_reference_files.py:main"), ("reader", "pico-cnn/io/read_binary_reference_data.cpp")],
 ["data files and tensors read back"])
prop("C29", "Generated reference data are what the model was run on and what it gave",
 "For every model and every supported request (random input of two to four dimensions with any range and seed, grey map, JPEG and mono audio files, with the documented shapes), the reference data utility runs the model once on one float32 input of exactly the requested shape, and writes an input file and an output file which the library's readers load bit for bit as that input and as the model's output. The input is what the request says: random values within the range, grey values divided by 255, colour values plane by plane, audio samples divided by the largest one. The same seed gives the same files. Other file types, batch sizes other than one and unsupported ranks are refused without writing data. The generated reference program accepts the files for the network imported from the same model.",
 ["inputs", "configurations", "programs"],
 "All shapes with batch one, all pixel and sample values, all float outputs (1 x n), any file and directory names.",
 "The utility has no tests.",
 ["util/generate_reference_data.py", io+"read_binary_reference_data.cpp"],
 [("writer", "util/generate_reference_data.py:main"), ("reader", "pico-cnn/io/read_binary_reference_data.cpp")],
 ["data files read back", "what the model was run on"])
prop("C30", "The example programs report what the network predicts for the data set",
 "For every imported network with the input and output shape of an example program, and every data set: the MNIST programs evaluate each of the first 1000 images (or all, when there are fewer) once and print exactly the error rate, the number of correct predictions and the confusion matrix that follow from the network's largest outputs and the labels; the ImageNet programs print the ten largest outputs in descending order with the labels belonging to them, for the image with the means subtracted plane by plane. Missing, truncated or mismatching files and images of another size make them fail without printing a result, whatever the length of the paths.",
 ["inputs", "programs"],
 "All networks with matching shapes, all images, labels 0 to 9, 1 to more than 1000 images, damaged files.",
 "The example programs are not built by the tests.",
 ["examples/lenet.cpp", "examples/mnist_mlp.cpp", "examples/mnist_simple_perceptron.cpp", "examples/alexnet.cpp", "examples/vgg.cpp"],
 [("evaluation", "examples/lenet.cpp:main"), ("classification", "examples/alexnet.cpp:main")],
 ["exit status and printed results"])
prop("C31", "Prepared images have the requested size and content",
 "For every directory of images, the preparation utility makes exactly one image of exactly the requested width and height from every JPEG image in it: scaling uses the whole image, cropping takes the pixels from the given position on (crop mode handles the ILSVRC files), centre cropping takes the middle part. Originals and other files are left alone, doing it again gives the same, and unusable requests (unknown mode, bad size, no crop position) produce no image.",
 ["inputs", "configurations"],
 "All image sizes that contain the crop, all positions and sizes, repeated runs.",
 "The utility has no tests.",
 ["util/prepare_images.py"],
 [("scale", "util/prepare_images.py:scale_images"), ("crop", "util/prepare_images.py:crop_images"), ("centre crop", "util/prepare_images.py:center_crop_images")],
 ["files in the directory tree"])
prop("C32", "The model checking utilities use and show every value",
 "For every reference data set next to a model, the model check runs the model on exactly the input tensors of the data set in their order and reports a match exactly when every element of every output agrees with the reference to four decimals. The intermediate output utility writes one file for every requested value, containing exactly that value's elements for an input of ones of the requested shape.",
 ["inputs", "configurations"],
 "Any number of inputs and outputs (also more than ten), all shapes, differences in any element, value names with the characters / . :.",
 "The utilities have no tests.",
 ["util/check_onnx_model.py", "util/save_intermediate_outputs.py"],
 [("verdict", "util/check_onnx_model.py:main"), ("saving", "util/save_intermediate_outputs.py:main")],
 ["exit status, printed verdict and saved values"])
prop("C33", "Threads working on objects of their own do not interfere",
 "For every set of threads, each of which runs layers on its own input and output tensors, performs tensor operations on its own tensors, or reads and writes its own data files, and for every schedule of them: every thread gets bit for bit the result it gets alone, and no two of them access the same memory in conflicting ways. This also holds when layers in different threads share parameter tensors or read the same input tensor, and when several threads load the same weights file into tensors of their own.",
 ["schedules", "inputs"],
 "All combinations of layers, tensor operations and readers/writers, all schedules, shared read-only parameters and inputs.",
 "The tests use one thread; hidden shared state does no harm there.",
 [L+"layer.h", L+"convolution.cpp", L+"fully_connected.cpp", L+"pooling/max_pooling.cpp", L+"activation_functions/softmax.cpp", "pico-cnn/tensor.cpp", io+"read_binary_weights.cpp"],
 [("layers", "pico-cnn/layers/layer.h:run"), ("tensor operations", "pico-cnn/tensor.h"), ("readers and writers", "pico-cnn/io")],
 ["results of every thread", "conflicting memory accesses"])
prop("C34", "An import depends on nothing but its model and leaves all else alone",
 "For every history of imports in one working directory - different models under different or equal names, models given by relative or absolute paths or in other directories, models which are refused or damaged, leftovers of interrupted imports - every successful import leaves exactly the generated files and the polished model that the same import gives in an empty directory, whatever was there under these names before. No import changes its model file, the generated code of other networks, or any other file, and a model is accepted or refused independently of what was imported before.",
 ["histories", "inputs", "programs"],
 "All sequences of imports, all model names without directory separators, all contents left over under the generated names.",
 "The tests do not import a model.",
 ["onnx_import/onnx_to_pico_cnn.py", "onnx_import/backend.py"],
 [("command line", "onnx_import/onnx_to_pico_cnn.py:main"), ("saving", "onnx_import/backend.py:save")],
 ["files of the working directory after every import"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
