NOT_APPLICABLE = []

GEN = "hypothesis-generated cases, shrunk to a JSON replay file. "

prop("C01", "Affine quantization rounds to the nearest code, ties up, and saturates",
     "For every supported integer data type, scale and zero point, quantizing a real value yields the integer nearest to "
     "value/scale + zero point (ties go up), saturated to the first or last code of the type. The result has the shape of "
     "the input and integer elements, is monotone in the input, leaves the input untouched and does not depend on earlier "
     "calls. The inference engine's own int8 helper gives the same codes.",
     "every (u)int type of 2 to 32 bits, every positive scale, every zero point, scalars, lists and arrays of any rank, "
     "finite values of any magnitude and infinities",
     "tests compare a handful of values of int8/uint8/int16; rounding at ties, saturation at every width and huge values need the whole input space",
     [f"{CORE}/operators.py", f"{CORE}/__init__.py", f"{IE}/util/quantization.py"],
     [("Quantization.quantize", f"{CORE}/operators.py"), ("to_int8", f"{IE}/util/quantization.py")],
     note="Exact rational arithmetic oracle; values within float error of a rounding boundary admit both neighbours unless the float computation is exact.",
     technique="property-based testing against an exact rational reference")

prop("C02", "Quantize and dequantize round-trip, with error at most half a step",
     "Dequantizing a code gives (code - zero point) * scale whatever integer container holds the code, and quantizing that "
     "value with the same parameters gives the code back, for every code of the type. For every real value inside the "
     "representable interval, dequantizing its quantized code is within half a scale step of it; a value outside becomes "
     "the nearest end of the interval. The inference engine's int8 helpers agree with the core library.",
     "every (u)int type of 2 to 32 bits, every scale, every zero point inside the type, every code, held in Python ints, the native numpy type, int64 or floats",
     "tests sample a few codes with one scale; container overflow and end codes only show for specific types and codes",
     [f"{CORE}/operators.py", f"{IE}/util/quantization.py"],
     [("Quantization.dequantize", f"{CORE}/operators.py"), ("from_int8", f"{IE}/util/quantization.py")],
     note="Exact rational oracle for (q-zp)*scale with 2^-50 relative tolerance; exact round trip.",
     technique="property-based round-trip testing")

prop("C03", "A rounding policy decides per element between rounding down and up",
     "Quantizing with a 0/1 rounding policy of the tensor's shape gives, for each element, the floor of value/scale + zero "
     "point plus the policy bit, saturated to the type. A policy whose shape does not fit, or no policy, gives "
     "ordinary rounding to nearest. The default policy derived from a tensor and its scale is binary and reproduces "
     "rounding to nearest (either neighbour at an exact tie).",
     "every (u)int type of 2 to 32 bits, every scale and zero point, vectors and matrices of reals, every 0/1 policy of fitting or incompatible shape",
     "tests never quantize with a policy; each of the 2^n policies is a different function",
     [f"{CORE}/operators.py", f"{QZ}/equalizers/adaround/irounding_policy.py"],
     [("Quantization.quantize(rounding_policy)", f"{CORE}/operators.py"), ("get_base_rounding", f"{QZ}/equalizers/adaround/irounding_policy.py")],
     note="Exact rational oracle; values within 2^-48 relative of an integer admit both floors.",
     technique="property-based testing against an exact rational reference")

prop("C04", "Data type names are validated and give the exact integer range",
     "A name made of int or uint in any letter case followed by a positive number of bits denotes the two's-complement or "
     "unsigned type of exactly that many bits: its minimum, maximum and canonical lower-case name are exact for any width, "
     "and numpy integer types denote the same types. Any other name or type is rejected with an error instead of being silently accepted.",
     "every width of 1 to 96 bits in every letter case, every numpy integer type, and mutations of valid names and non-integer types",
     "tests enumerate a few names; acceptance of a malformed name needs a mutation the tests do not hold",
     [f"{CORE}/operators.py"],
     [("GenericDtype", f"{CORE}/operators.py"), ("Quantization.__init__", f"{CORE}/operators.py")],
     over=("inputs", "configurations"),
     note="Python big-integer oracle for ranges; rejection is any exception.",
     technique="property-based testing with mutated names")

prop("C05", "A look-up table tabulates the quantized activation of every code",
     "The table created for an activation has one entry per code of the type, in code order, and each entry is the activation "
     "of the dequantized code quantized with the output scale and zero point, rounding to nearest or following the given "
     "0/1 policy, saturated to the type. The entries are plain integers. The float activation of all codes is available "
     "and equals the activation evaluated at each dequantized code, also when the activation returns integers for some inputs.",
     "types of 2 to 10 bits and 12/13/16 bits, any input/output scale and zero point, smooth, piecewise, integer-valued, constant and unbounded activations (poles), any policy, scales up to 1e8",
     "tests tabulate one activation with one set of parameters",
     [f"{CORE}/operators.py"],
     [("Quantization.create_LUT", f"{CORE}/operators.py"), ("Quantization.float_activation", f"{CORE}/operators.py")],
     note="Every entry of every generated table is compared with an independent evaluation.",
     technique="property-based testing against a reference evaluation")

prop("C06", "A reduced look-up table answers exactly like the full table",
     "A reduced look-up table returns, at every index of the original table and in any order of access, exactly the original "
     "entry, and iterating over it yields the original table. Each side prunes its outermost values: exactly as many (runs of equal entries) as requested, or all there are, "
     "and the reduction never has more entries than the original. The source table is not modified.",
     "tables of 1 to 600 entries and of up to 70000, with any runs of equal values, depth 0 to 100, symmetric or asymmetric reduction, with a minimum reduction, and tables of real activations",
     "tests reduce a few hand-written tables",
     [f"{CORE}/lut.py"], [("ReducedLUT", f"{CORE}/lut.py")],
     note="The original table is the oracle; every index is compared.",
     technique="differential property-based testing (reduced vs full table)")

prop("C07", "A reduced look-up table survives its JSON form",
     "Serializing a reduced look-up table, writing it as JSON, reading it back and deserializing gives a table that answers "
     "exactly like the original at every index and by iteration, and serializes to the same document again. The inference "
     "engine's look-up layer gives the original entries from that document, for any index offset.",
     "the tables, depths and modes of C06, through one and two JSON generations",
     "tests deserialize one table and only index it",
     [f"{CORE}/lut.py", f"{IE}/layers/common/lut.py"],
     [("ReducedLUT.serialize/deserialize", f"{CORE}/lut.py"), ("LUTActivation.from_node", f"{IE}/layers/common/lut.py")],
     over=("inputs", "programs"),
     note="Round trip through real JSON text; the original table is the oracle.",
     technique="property-based round-trip testing")

prop("C08", "Typed integer arithmetic is exact and widens instead of overflowing",
     "Adding, subtracting or multiplying two typed integers (numbers, vectors or matrices) of the same signedness and 8 to 32 bits gives the exact "
     "mathematical result, held in a type of that signedness that contains it. The result keeps the wider operand's width when it fits the left "
     "operand's type, and otherwise has that width or twice it. The helpers for the sum and the product of 8, 16 and 32 bit integers give the exact result in twice the width. Operands are not modified, and this holds along chains of operations.",
     "all pairs of 8/16/32-bit types of equal signedness (unsigned differences below zero excluded), numbers, vectors up to 5000 elements and arrays of up to 3 dimensions, addition of a plain integer, chains of up to 6 operations",
     "tests try a few pairs; overflow shows only for specific values near the limits",
     [f"{CORE}/operators.py", f"{IE}/util/quantization.py"], [("Dtype.__add__/__sub__/__mul__", f"{CORE}/operators.py")],
     over=("inputs", "histories"),
     note="Python big-integer oracle.",
     technique="property-based testing against big-integer arithmetic")

TFL = f"{IE}/layers/tflite"
ONX = f"{IE}/layers/onnx"

prop("C09", "A look-up activation layer returns the entry at code + offset",
     "A look-up activation (tanh, sigmoid or generic; TFLite or ONNX flavour; full, reduced or both forms of the table) maps every "
     "code of its input to the table entry at code + offset, element by element, keeping the shape, whatever the number of dimensions "
     "and the integer container. When both forms are present they agree. The input is not modified, a second call is not affected "
     "by the first, and a look-up operator without a table is rejected.",
     "tables of any length up to 300, the whole range of a type or up to 70000 entries, any offset, list/reduced form, every operator name that builds the layer, inputs of 1 to 4 dimensions",
     "tests look up a few codes of one table in one container",
     [f"{IE}/layers/common/lut.py", f"{IE}/layers/common/sigmoid.py", f"{IE}/layers/common/tanh.py"],
     [("LUTActivation.infer", f"{IE}/layers/common/lut.py"), ("LUTActivation.from_node", f"{IE}/layers/common/lut.py")],
     note="The generated table is the oracle; every element is compared.",
     technique="property-based testing against direct indexing")

prop("C10", "The quantized fully connected layer computes the rounded affine map",
     "For every input, weight and bias code, scale and zero point, the fully connected layer returns the integer nearest to "
     "(sum of (x - x_zp)(w - w_zp) + bias) * x_scale * w_scale / out_scale + out_zp, saturated to the output type, for a single vector "
     "and for every row of a batch, without overflow in the accumulation and whatever container holds the codes. Exact ties go up when the factor is exact (its significand fits in 31 bits, as for every power of two). "
     "Calls do not change the layer or the input.",
     "input/output sizes up to 70x40, 4 to 16 bit types, any zero points, int32 biases, rescaling factors from 1e-6 to 2^29",
     "tests use one layer with fixed weights; accumulator width, ties, saturation and zero points need many combinations",
     [f"{TFL}/fullyconnected.py", f"{IE}/util/floating.py"],
     [("FullyConnected.infer", f"{TFL}/fullyconnected.py"), ("FloatingIntegerApprox", f"{IE}/util/floating.py")],
     note="Exact integer accumulation; outputs within 31-bit factor precision of a tie admit both neighbours.",
     technique="property-based testing against an exact reference")

prop("C11", "Inference treats every row of a batch on its own",
     "For every network and every operator, the outputs of a batch are the outputs of its rows: permuting, repeating, splitting or "
     "concatenating the batch permutes, repeats, splits or concatenates the outputs, a row alone gives the same codes as inside "
     "any batch, and the number of rows is kept. Element-wise operators keep the shape of their input.",
     "random TFLite dense, TFLite LSTM and ONNX networks of up to 15 operators, batches of 1 to 40 rows",
     "tests run fixed batches; dependence between rows shows only when batches are recombined",
     [f"{IE}/network/sequential.py", f"{TFL}/fullyconnected.py", f"{IE}/layers/itclq/lstm.py", f"{ONX}/softmax.py"],
     [("SequentialNetwork.infer", f"{IE}/network/sequential.py"), ("LSTM.infer", f"{IE}/layers/itclq/lstm.py")],
     over=("inputs", "programs"),
     note="Metamorphic relations on the network and on each operator.",
     technique="metamorphic property-based testing")

prop("C12", "ONNX quantized addition and matrix multiplication follow the ONNX formula",
     "QLinearAdd returns saturate(round_half_even((a_scale (a - a_zp) + b_scale (b - b_zp)) / y_scale) + y_zp) with the stored tensor b "
     "broadcast over the leading dimensions, and QLinearMatMul returns saturate(round_half_even(a_scale b_scale / y_scale * sum (a - a_zp)(b - b_zp)) + y_zp) "
     "for the stored (transposed) matrix, both as uint8 in 0..255, for every shape, scale, zero point and code, without overflow and without changing the input.",
     "inputs of 1 to 3 dimensions, sizes up to 70x40, stored uint8/int8/int16/int32 codes, any scales and zero points",
     "tests hold no case of saturation, ties, signed stored codes or broadcasting",
     [f"{ONX}/q_linear_add.py", f"{ONX}/q_linear_mmul.py"],
     [("QLinearAdd.infer", f"{ONX}/q_linear_add.py"), ("QLinearMatMul.infer", f"{ONX}/q_linear_mmul.py")],
     note="Float64 reference with error intervals; exact (ties decided) with power-of-two scales.",
     technique="property-based testing against a reference formula")

prop("C13", "ONNX element-wise operators: quantize, dequantize, sigmoid, tanh, softmax",
     "QuantizeLinear gives the uint8 code nearest to x/scale + zero point (ties up, saturated), DequantizeLinear gives (code - zero point) * scale, "
     "QLinearSigmoid the output code of the sigmoid of the dequantized input, Tanh the float tanh, and Softmax normalizes each row over the last "
     "axis: every row is a probability distribution equal to the softmax of its logits, without overflow for any finite logits. All keep the shape and leave the input untouched.",
     "inputs of 1 to 4 dimensions, any scale and uint8 zero point, every code, logits up to 1e4 in magnitude",
     "tests run softmax on one small vector and quantize a few values",
     [f"{ONX}/quantize_linear.py", f"{ONX}/dequantize_linear.py", f"{ONX}/q_linear_sigmoid.py", f"{ONX}/softmax.py", f"{ONX}/tanh.py"],
     [("Softmax.infer", f"{ONX}/softmax.py"), ("QLinearSigmoid.infer", f"{ONX}/q_linear_sigmoid.py"), ("QuantizeLinear.infer", f"{ONX}/quantize_linear.py")],
     note="Float64 reference with error intervals.",
     technique="property-based testing against a reference formula")

prop("C14", "TFLite element-wise operators: quantize, dequantize, tanh, logistic, softmax",
     "QUANTIZE gives the code of the output type nearest to x/scale + zero point (ties up, saturated), DEQUANTIZE gives (code - zero point) * scale, "
     "TANH and LOGISTIC give the int8 code of tanh/sigmoid of the dequantized input with the fixed output parameters (1/128, 0) and (1/256, -128), "
     "and SOFTMAX leaves the codes as they are. The operator's own scale, zero point and data type are used, names are case-insensitive, shapes are kept and inputs untouched.",
     "every (u)int type of 2 to 32 bits, any scale and zero point, inputs of 1 to 4 dimensions inside and outside of the range",
     "tests quantize a few values with int8",
     [f"{TFL}/quantize.py", f"{TFL}/dequantize.py", f"{TFL}/tanh.py", f"{TFL}/logistic.py", f"{TFL}/softmax.py"],
     [("Quantize.infer", f"{TFL}/quantize.py"), ("Dequantize.infer", f"{TFL}/dequantize.py"), ("Tanh.infer", f"{TFL}/tanh.py"), ("Sigmoid.infer", f"{TFL}/logistic.py")],
     note="Float64 reference with error intervals; the tensorflow sigmoid is stood in for by an exact float64 sigmoid.",
     technique="property-based testing against a reference formula")

prop("C15", "The quantized ReLU is the requantized positive part",
     "For every int8 code, input and output scale and zero point, RELU returns the int8 code nearest to max(0, (x - in_zp) in_scale) / out_scale + out_zp "
     "(ties up), saturated, whatever the shape and container of the input, which it does not modify.",
     "int8 codes, arrays of 1 to 3 dimensions, equal and very different scales, every pair of zero points",
     "the tests use equal scales and a zero point of the start of the range",
     [f"{IE}/layers/common/relu.py"], [("RELU.infer", f"{IE}/layers/common/relu.py")],
     note="Exact when the ratio of scales is a power of two, error intervals otherwise.",
     technique="property-based testing against a reference formula")

prop("C16", "The quantized LSTM layer follows the quantized recurrence",
     "For every kernel, recurrent kernel, bias, table, scale and zero point, the LSTM layer returns the hidden state codes of the quantized recurrence: per gate the "
     "input product rescaled to the recurrent scale plus the recurrent product and bias, rescaled and saturated to the sum's type, looked up in the gate's table; the cell is forget*cell + input*candidate and "
     "the hidden state output*activation(cell), rescaled, truncated and saturated with their zero points. Each call starts from the zero state, sequences of a batch are "
     "independent, outputs of a prefix do not depend on later steps, and returning sequences only adds the intermediate states to the final one. The layer keeps the intermediate codes of its last call.",
     "1 to 17 units, 1 to 9 features, sequences and batches of several sizes, own scales and zero points for all 4 gates, full or reduced tables",
     "the test of the layer runs one stored model; gate order, zero points and state handling need independent parameters for every gate and step",
     [f"{IE}/layers/itclq/lstm.py"], [("LSTM.infer", f"{IE}/layers/itclq/lstm.py"), ("LSTM.from_model", f"{IE}/layers/itclq/lstm.py")],
     over=("inputs", "histories"),
     note="Interval reference of the recurrence (exact with power-of-two scales) plus metamorphic relations.",
     technique="property-based testing against an interval reference model")

prop("C17", "A sequential network is the ordered composition of its operators",
     "Building a network from a document (dictionary or JSON file) and running it gives exactly the composition, in document order, of its operators, each computing its own reference function, "
     "for any sequence of calls on any number of networks alive at once, with or without the verbose and batch flags. Real inputs of a network without a QUANTIZE operator are quantized with the "
     "input node's parameters first. The document and the inputs are not modified, and the network prints as its document. Unknown operators, unknown engines "
     "and missing input or output nodes are rejected with an error.",
     "1 to 3 random networks of both engines with 3 to 15 operators, interleaved calls with different inputs and flags; unknown operator and engine names",
     "tests run a couple of stored models once; state shared between calls or networks needs histories",
     [f"{IE}/network/sequential.py", f"{TFL}/build_layer.py", f"{ONX}/build_operator.py"],
     [("SequentialNetwork", f"{IE}/network/sequential.py"), ("build_layer", f"{TFL}/build_layer.py"), ("build_operator", f"{ONX}/build_operator.py")],
     over=("inputs", "programs", "histories"),
     note="Composition of freshly built operators, each compared with an independent reference.",
     technique="model-based testing over random networks and call histories")

prop("C18", "The integer-only multiplier approximates multiplication by its factor",
     "For every factor from 2^-31 to 2^29 and every integer up to 2^31 in magnitude, multiplying with the integer-only fixed-point multiplier gives an integer within half a unit, plus the 31-bit "
     "precision of the factor, of the exact product; factors whose significand fits in 31 bits, powers of two among them, round exactly half up; the result is monotone in the operand and equal for a "
     "Python integer and for every element of an integer array. Without integer-only arithmetic the product is the float product.",
     "factors over 60 binades, powers of two and their neighbours, operands of the whole int32 range, scalars, vectors and matrices",
     "tests multiply a handful of numbers",
     [f"{IE}/util/floating.py"], [("FloatingIntegerApprox", f"{IE}/util/floating.py")],
     note="Exact rational oracle.",
     technique="property-based testing against exact rational arithmetic")

DIST = f"{QZ}/quantizer/distributions/distribution.py"
PARAMQ = f"{QZ}/equalizers/param_equalizer"
ADAR = f"{QZ}/equalizers/adaround"
KL = f"{QZ}/tensor_extractor/keras/layers"

prop("C19", "Parameters derived from data cover it and reproduce it within half a step",
     "The scale and zero point derived from a data set for an integer type are plain JSON numbers with a positive scale and a zero point inside the type, span the data and zero, "
     "and quantizing with them reproduces every value within half a step; they do not depend on the order of the data, which is left untouched. With a zero point forced to 0 (signed types) the symmetric range covers "
     "the largest magnitude with codes of at most the type's maximum in magnitude, and the asymmetric one covers it up to one step. Constant and all-zero data give valid parameters and forced scales and zero points are respected.",
     "lists, float32, float64 and integer arrays of rank 1 to 3, up to 600 values of any magnitude, sign and degree of repetition; every (u)int type of 2 to 32 bits",
     "tests of the quantizer do not run offline and quantize one tensor; one-sided, constant, tiny and huge data need a generator",
     [DIST], [("Distribution.quantize", DIST)],
     note="Independent quantize/dequantize formula in float64, tolerance 1e-6 relative to the range.",
     technique="property-based testing of the error bound and of invariances")

prop("C20", "Distributions bin, slice and trim calibration data without losing values",
     "The bins of a calibration distribution have increasing edges, count every value exactly once and know their extremes; slices by value or by bin range hold the values of their range "
     "(with at most one partial bin at each end, or none when partial bins are excluded) and leave the original untouched. Trimming a percentage clips each tail at "
     "that percentile: values outside are clipped, not dropped, values inside are unchanged; the min-max trimming keeps everything. Normalized distributions are the bin counts divided by their sum, and comparing two distributions compares their (normalized) bins.",
     "the data of C19, 1 to 600 bins, ranges inside, across and at the ends of the data, open ends, bin indexes of both signs, percentages of 0 to 45 per tail",
     "tests slice one or two distributions at convenient values",
     [DIST, f"{QZ}/optimizers/fixed_percent.py", f"{QZ}/optimizers/minmax.py"],
     [("Distribution.slice/bins", DIST), ("FixedPercentOptimizer", f"{QZ}/optimizers/fixed_percent.py")],
     note="The sorted data are the oracle.",
     technique="property-based testing against sorted data")

prop("C21", "Tensor nodes stay consistent over any history of updates",
     "After any sequence of parameter updates, rounding policies and resets, the codes of a node are its real values quantized with its current parameters and policy (rounded to nearest without one), its look-up table "
     "tabulates the activation with the current input and output parameters and policy, dequantizing gives (code - zero point) * scale, and its JSON form says the same and omits what was excluded. "
     "A policy of the wrong shape is rejected, update hooks run once per update, and other nodes are not affected.",
     "nodes with tensors up to 24x12, tables of types up to 10 bits and bare parameters; histories of up to 12 operations",
     "no offline test updates a node twice; stale codes, tables and policies only show in histories",
     [f"{QZ}/tensor_extractor/tensor.py"],
     [("NodeTensorBase.update_quant_parameters", f"{QZ}/tensor_extractor/tensor.py"), ("NodeTensorTensor.rounding_policy", f"{QZ}/tensor_extractor/tensor.py")],
     over=("inputs", "histories"),
     note="Model of a node with exact interval oracles for codes and tables.",
     technique="stateful model-based testing")

prop("C22", "Rounding optimization never worsens the loss and applies the best policy",
     "The rounding annealer returns the cheapest of the binary policies it tried, with its cost, never worse than the initial one, which it leaves untouched. Optimizing the rounding of a layer or of a network evaluates "
     "each policy on nodes that already use it and leaves the nodes with the policy it chose, never with a worse loss than before. Scales and zero points do not change, and the network's document stays consistent with its codes.",
     "random quadratic, tabulated and plateau costs over up to 12 elements, policies of vectors, matrices and several tensors, dense and LSTM networks with random data, annealer settings and random seeds",
     "annealing is random and its outcome depends on the cost; no offline test runs it",
     [f"{ADAR}/annealer.py", f"{ADAR}/adaround.py", f"{ADAR}/iround_optimizer.py", f"{QZ}/equalizers/eq_bundler.py"],
     [("RoundingAnnealer", f"{ADAR}/annealer.py"), ("AdaRound", f"{ADAR}/adaround.py")],
     over=("inputs", "schedules", "histories"),
     note="Every evaluated policy is recorded; simanneal is stood in for by an equivalent annealer.",
     technique="property-based testing with recorded cost evaluations")

prop("C23", "Parameter equalization never worsens the loss and leaves consistent nodes",
     "Equalizing scales and zero points, best-first or by annealing, of nodes, of a layer or of a whole network, keeps every scale positive and every zero point inside its type, evaluates the loss only on consistent "
     "states (codes and tables of the current parameters), returns the smallest loss it saw, never above the initial one, and leaves the nodes with exactly the parameters that gave it. "
     "The network input keeps its parameters, and without a loss or a configuration nothing changes.",
     "1 to 4 nodes with tensors, tables or bare parameters and smooth, rough and flat costs; dense networks of 1 to 3 layers through the configuration, whole or per layer, with rounding afterwards; random seeds",
     "the search is random; no offline test runs it",
     [f"{PARAMQ}/param_equalizer.py", f"{PARAMQ}/bfs_equalizer.py", f"{PARAMQ}/annealer.py", f"{QZ}/equalizers/eq_bundler.py"],
     [("BFSEqualizer", f"{PARAMQ}/bfs_equalizer.py"), ("ParamAnnealer", f"{PARAMQ}/annealer.py"), ("ParamEq", f"{PARAMQ}/param_equalizer.py")],
     over=("inputs", "schedules", "histories"),
     note="Every evaluated state is recorded and checked; simanneal is stood in for by an equivalent annealer.",
     technique="property-based testing with recorded cost evaluations")

prop("C24", "The QUBO of a dense layer has the energy of the rounding error",
     "For every assignment of round-up/round-down bits to a neuron's weights and bias, the energy of the QUBO built for it equals, up to one constant per neuron, the mean squared error of the neuron's output before the activation over the "
     "calibration data with that rounding. The rounding that is chosen for each neuron is the one of least error, and it is what the layer's codes hold afterwards; the matrix written to disk is the matrix of the model. Other layers are left alone.",
     "up to 6 inputs and 4 neurons (every assignment enumerated), up to 8 calibration rows, arbitrary scales and zero points; dense networks rounded with the QUBO optimizer",
     "no offline test builds a QUBO; a wrong coefficient only shows for some assignments",
     [f"{ADAR}/qubo.py", f"{ADAR}/qubocalculation.py", f"{ADAR}/Calculationsint.py"],
     [("QUBO optimizer", f"{ADAR}/qubo.py"), ("ADAInt", f"{ADAR}/Calculationsint.py"), ("QUBO matrix", f"{ADAR}/qubocalculation.py")],
     note="All 2^n assignments are enumerated; the samplers (dimod, neal, greedy) are stood in for by an exact solver.",
     technique="property-based testing against exhaustive enumeration")

prop("C25", "Quantizing a dense network end to end gives a faithful document",
     "Quantizing a network of dense layers writes a document, the same in memory and on disk, that holds for each layer its operator and activation table, its transposed kernel and its bias as the nearest codes of parameters derived from the weights (bias scale = "
     "input scale * kernel scale, zero point 0), and input, output and activation parameters that span the calibration data. Running it on the calibration data stays within the accumulated rounding error of the float network. "
     "The configuration (types, per-layer overrides, JSON or YAML) is respected, the data are not modified, and unsupported layers are rejected.",
     "1 to 3 dense layers of up to 10 units, with or without bias, linear/tanh/sigmoid/relu/relu6 and a final softmax, dropout and input layers; up to 12 calibration rows; integer types of 4 to 32 bits",
     "no offline test quantizes a network",
     [f"{QZ}/tensor_extractor/keras/keras_builder.py", f"{KL}/keras_dense.py", f"{KL}/keras_input.py", f"{KL}/dequantize.py", f"{QZ}/tensor_extractor/tensor.py", f"{QZ}/util/network.py"],
     [("KerasBuilder", f"{QZ}/tensor_extractor/keras/keras_builder.py"), ("KerasDense", f"{KL}/keras_dense.py")],
     over=("inputs", "programs", "configurations"),
     note="Keras is stood in for by a float32 stub; the oracle derives ranges, codes and an analytic error bound from the weights and data.",
     technique="property-based testing against an analytic error bound and a reference document")

prop("C26", "Quantizing an LSTM network end to end gives a faithful document",
     "Quantizing a network with LSTM layers writes, for each of the four gates, kernel, recurrent kernel and bias as the nearest codes, bias scales that follow input and kernel, also after later parameter updates, the gate's activation table, and ranges that span the float values that gate takes over all "
     "steps of the calibration sequences, with a symmetric cell state. Running the document on the calibration data stays within the accumulated rounding error of the float network. "
     "Rounding, equalization and QUBO optimizations never worsen its loss. An attached debugger changes nothing.",
     "1 or 2 LSTM layers of up to 4 units and 5 steps, returning sequences or not, followed by up to 2 dense layers; integer types of the configuration",
     "no offline test quantizes an LSTM",
     [f"{KL}/keras_lstm.py", f"{QZ}/tensor_extractor/keras/keras_builder.py"],
     [("KerasLSTM", f"{KL}/keras_lstm.py")],
     over=("inputs", "programs", "configurations"),
     note="A float64 LSTM gives the states of the calibration data; analytic error bound over the recurrence.",
     technique="property-based testing against an analytic error bound and a reference document")

prop("C27", "keras2json writes every weight, shape and attribute of the float model",
     "The document of a float Keras model holds, in order, the operators of every supported layer (dense, LSTM, convolution, max pooling, flatten, and the activations), with exactly the weights of the layer (dense kernels transposed, zero biases of the output "
     "length when the layer has none), their shapes and attributes (strides, padding, pool size, units, steps, returned sequences). Dropout and input layers add nothing, converting twice gives the same document, and a model with an unsupported layer is rejected.",
     "models of 1 to 7 layers with random weights of any magnitude",
     "the converter has no test",
     [f"{MC}/keras2json/keras2json/_convert.py", f"{MC}/keras2json/keras2json/layers/dense.py", f"{MC}/keras2json/keras2json/layers/lstm.py", f"{MC}/keras2json/keras2json/layers/conv2d.py",
      f"{MC}/keras2json/keras2json/layers/maxpool2d.py", f"{MC}/keras2json/keras2json/layers/flatten.py"],
     [("keras2json", f"{MC}/keras2json/keras2json/_convert.py")],
     over=("inputs", "programs"),
     note="Keras is stood in for by a stub; every number of the document is compared with the layer.",
     technique="property-based testing of a converter against its source model")

prop("C28", "onnx2json writes a document that runs like the ONNX model",
     "The document of a quantized ONNX model holds, in graph order, its operators with the scale and zero point of every input and output, the exact stored weights (matrices transposed) and their type, and the sigmoid table of the operator's parameters with its reduction to the depth of the converter's settings; inputs and outputs of the model are described by "
     "name and shape. The inference engine runs that document as the ONNX formulas prescribe. An operator that is not supported is rejected.",
     "random sequences of the seven supported operators with uint8 weights, any scale and zero point, initializers in any order and partly shared, value infos in any order",
     "the converter has no test",
     [f"{MC}/onnx2json/2json.py", f"{MC}/onnx2json/helpers/buildOperator.py", f"{MC}/onnx2json/helpers/graph.py", f"{MC}/onnx2json/helpers/nodeBuilders/buildBaseNode.py",
      f"{MC}/onnx2json/helpers/nodeBuilders/QLinearMatMul.py", f"{MC}/onnx2json/helpers/nodeBuilders/QLinearAdd.py", f"{MC}/onnx2json/helpers/nodeBuilders/QLinearSigmoid.py"],
     [("model2json", f"{MC}/onnx2json/2json.py"), ("build_operator", f"{MC}/onnx2json/helpers/buildOperator.py")],
     over=("inputs", "programs", "configurations"),
     note="The ONNX protobuf is stood in for by look-alike objects; ONNX formulas in float64 with error intervals.",
     technique="differential property-based testing (document vs ONNX formulas)")

prop("C29", "tflite2json writes a document that runs like the TFLite model",
     "The JSON file of a TFLite model holds, in order, every operator with its input and output tensors: name, shape, type, scale and zero point, and the exact contents of constant tensors in their type. TANH and LOGISTIC operators on int8 get the full and the reduced table of "
     "the activation with the tensors' parameters and offset 128, both answer alike, and the reduced one has the depth of the converter's settings. The inference engine runs the file of a chain of int8 operators as the TFLite formulas prescribe.",
     "models of up to 8 tensors of every supported type, shape and quantization, and chains of quantize, fully connected, tanh, logistic, softmax and dequantize operators; command line and function",
     "the converter has no running test",
     [f"{MC}/tflite2json/itcl_tflite2json/_tflite2json.py", f"{MC}/tflite2json/itcl_tflite2json/operators/BaseOperator.py", f"{MC}/tflite2json/itcl_tflite2json/operators/TanhLUT.py",
      f"{MC}/tflite2json/itcl_tflite2json/operators/SigmoidLUT.py", f"{MC}/tflite2json/itcl_tflite2json/operators/FullyConnected.py"],
     [("convert", f"{MC}/tflite2json/itcl_tflite2json/_tflite2json.py"), ("BaseOperator", f"{MC}/tflite2json/itcl_tflite2json/operators/BaseOperator.py")],
     over=("inputs", "programs"),
     note="The flatbuffer classes and the interpreter are stood in for by look-alike objects; TFLite formulas in float64 with error intervals.",
     technique="differential property-based testing (document vs TFLite formulas)")

prop("C30", "A quantized dense network stays consistent over any history of updates",
     "After any history of new scales and zero points of the network input, kernels, dense outputs and activation outputs, of rounding policies and of their resets, the document of a quantized dense network shows the new parameters everywhere the tensor appears: kernel codes and policies match, every bias has scale input * kernel, "
     "zero point 0 and the codes of that scale, tables follow their input and output parameters, and each layer's input is the previous layer's output. Nothing else changes, and the operators of the document compute their formulas.",
     "networks of 1 to 3 dense layers of C25; histories of up to 10 operations",
     "no offline test updates a network; stale links between layers only show in histories",
     [f"{KL}/keras_dense.py", f"{QZ}/tensor_extractor/tensor.py", f"{QZ}/util/network.py"],
     [("KerasDense", f"{KL}/keras_dense.py"), ("update hooks", f"{QZ}/tensor_extractor/tensor.py")],
     over=("inputs", "histories"),
     note="Model of the network; interval oracles for codes and tables.",
     technique="stateful model-based testing")

prop("C31", "Collisions count the distinct values that quantization merges",
     "The number of collisions of a tensor is the number of its distinct values (rounded to the requested number of decimals, or as they are with 0) that share their code with another distinct value: equal values never collide, nor do values with different codes, the order of the elements does not matter and the count is never negative. "
     "The counts of a dense layer are those of its kernel, its output and its activation output, the last two divided by the calibration rows and rounded up, and the layer's total is their sum.",
     "tensors of rank 1 to 3 with repeated, close and distinct values, quantized or arbitrary codes, 0 to 8 decimals; quantized dense networks",
     "the function has no offline test",
     [f"{QZ}/util/collisions.py", f"{KL}/keras_dense.py"],
     [("collisions", f"{QZ}/util/collisions.py")],
     note="Grouping by hand is the oracle.",
     technique="property-based testing against a reference count")

DEMO = "demo/demo_lib/demo_lib"
prop("C32", "Remote inference over MQTT answers like the local network, chunk by chunk",
     "Inference on the remote device sends every input row once, in order, in chunks of at most the largest batch, after the current network, waits for the answer of each chunk, and returns the concatenated answers: the result of the local network for any number of rows. A chunk that is not answered in time, or answered with an incomplete message or "
     "garbage, makes the call return no result instead of an old or partial one, and the next call works again. Messages carry the identifier, shape and flat values of the rows, and the remote loss is the device's loss for that network.",
     "batches of 1 to 12 rows, calls of 1 row to 4 batches, a simulated device answering synchronously, from another thread, wrongly or never",
     "the client has no test",
     [f"{DEMO}/fpga.py", f"{DEMO}/mqtt.py"], [("FPGA client", f"{DEMO}/fpga.py"), ("MQTT wrapper", f"{DEMO}/mqtt.py")],
     over=("inputs", "histories", "fault_sequences"),
     note="The broker and device are simulated in process; late answers of a timed-out call are out of scope.",
     technique="stateful property-based testing with injected faults")

prop("C33", "The configuration holds what the document sets and defaults for the rest",
     "A configuration given as keyword arguments, a JSON file or a YAML file holds exactly the values of the document in every section, including nested sections and the sections of single layers, and the documented default everywhere else; fields it does not know are ignored, a document with an unknown optimizer or a value of the wrong kind is rejected, "
     "and changing one configuration changes no other. An optimizer section builds, anew for every layer, an optimizer of the named kind with the schedule and retries of the section (the base one is the local search alone). The TFLite preset makes the dense section's kernels symmetric, removes network rounding and equalization, and changes nothing else; the sample documents agree with each other and with the preset.",
     "documents with any subset of the fields of every section and any layer names, as arguments, JSON or YAML in several styles; documents with one invalid section; the shipped samples",
     "tests load the samples at most; a forgotten nested field or shared default shows only for specific documents",
     [f"{QZ}/config/models/keras.py", f"{QZ}/config/samples/_create_samples.py"],
     [("QuantizerCfg", f"{QZ}/config/models/keras.py")],
     over=("inputs", "configurations"),
     note="A dictionary merge is the oracle. pydantic is a stand-in.",
     technique="property-based testing against a dictionary model")

prop("C34", "Converter programs document every model of a folder and nothing else",
     "Running the program of the Keras, ONNX or TFLite converter on its folder writes, for every model of the folder, one JSON document next to it with the model's name and the content that converting this model alone gives, and leaves every other file as it was, among them the documents of removed models and files that are no models. "
     "Running it again, with the documents of earlier runs in the folder and with models added, replaced or removed, gives the documents of the current models. When a model is rejected the program fails and every document in the folder is a complete one, of this run or of an earlier one.",
     "histories of up to 4 runs on folders with up to 8 models, documents of earlier runs, unrelated files, sub-folders, names that contain a format's name, and rejected models",
     "the programs have no test; damage shows only for folders with other contents than models",
     [f"{MC}/keras2json/_main.py", f"{MC}/onnx2json/2json.py", f"{MC}/tflite2json/itcl_tflite2json/_tflite2json.py"],
     [("main", f"{MC}/onnx2json/2json.py"), ("main", f"{MC}/tflite2json/itcl_tflite2json/_tflite2json.py"), ("_main", f"{MC}/keras2json/_main.py")],
     over=("histories", "inputs"),
     note="A model of the folder is the oracle; the loaders of the models are stand-ins. Each run works in a scratch folder.",
     technique="stateful model-based testing of the programs on scratch folders")

prop("C35", "Calibration noise metrics and noise-driven trimming follow their formulas",
     "The noise metrics (mean squared error, Kullback-Leibler divergence with empty bins counted as 1e-10, cross entropy) equal their formulas for any two histograms, of counts or of shares, and leave the histograms as they were. "
     "Reducing a histogram to fewer bins shares the items of a group of bins equally among its non-empty bins and leaves empty bins empty. Entropy trimming keeps the data from the lowest value up to the threshold whose clipped and reduced histograms diverge least. "
     "Noise-minimizing trimming starts its search with the whole range, measures for a range the noise of quantizing all the data, in the type it was given, with the range's parameters, and keeps the best range found. No trimming changes the original distribution.",
     "histograms of up to 600 bins with runs of empty bins; data of five shapes with offsets, gaps and outliers, 16 to 512 bins, 4 to 16 bit types, up to 6 ranges asked by the search",
     "one reduction has a test; empty groups, shifted data and other types than int8 only show for other data",
     [f"{QZ}/quantizer/metrics/noise.py", f"{QZ}/optimizers/kl_div_optimizer.py", f"{QZ}/optimizers/scipy_optimizer.py"],
     [("kl_divergence", f"{QZ}/quantizer/metrics/noise.py"), ("KLDivergenceOptimizer.reduce/trim", f"{QZ}/optimizers/kl_div_optimizer.py"), ("ScipyOptimizer.trim", f"{QZ}/optimizers/scipy_optimizer.py")],
     note="Formulas in exact summation; the search of scipy is replaced by one that asks for chosen ranges.",
     technique="property-based testing against formulas and a scripted search")
