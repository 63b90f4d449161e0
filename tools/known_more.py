FIXED += [
    ("C03", "round tiny negative values up with a rounding policy", "a negative value below the float resolution of its code plus a policy of 1 was rounded a whole step too high"),
    ("C19", "return serializable scales from the distributions", "the scale of a float32 data set was a numpy float32 that json could not write"),
    ("C19", "quantize a distribution that only holds zeros", "a data slice that only holds zeros raised ZeroDivisionError instead of giving the default parameters"),
    ("C20", "clip the requested percentage of each tail of the distribution", "FixedPercentOptimizer clipped both tails near the lowest percentile and kept the original range"),
    ("C21", "dequantize a tensor node with its zero point", "NodeTensorTensor.dequantized added the zero point instead of removing it before scaling"),
    ("C21", "keep the LUT of a node in step with its parameters and rounding policy", "the LUT of a node ignored new output parameters and rounding policies"),
    ("C21", "keep rounding a node to nearest after its parameters change", "after a scale update a tensor was rounded with the nearest policy of the old scale (errors up to one step)"),
    ("C22", "derive the default rounding policy in double precision", "the default policy of a float32 tensor did not reproduce rounding to nearest for weights on a code (e.g. the largest one)"),
    ("C22", "do not discard a rounding policy without loss", "a policy with a loss of exactly 0 was replaced by a worse one"),
    ("C22", "flip the rounding of any element of a matrix", "the rounding annealer only ever flipped the first rows of a matrix"),
    ("C22", "equalize and round networks with LSTM layers", "AdaRound and the equalizers raised on networks with an LSTM layer"),
    ("C23", "anneal the parameters of the nodes of the network", "the parameter annealer worked on copies, the network kept the parameters of the last accepted move before the first rejection"),
    ("C24", "round the QUBO layers against their output before the activation", "the QUBO of a layer with an activation compared the linear output with the activated one"),
    ("C25", "describe the dense output node with the output of the layer", "the output node of a dense layer held the tensor and shape of its input"),
    ("C25", "calibrate the layer after a fused activation on activated data", "the layer after a RELU was calibrated with the values before the RELU"),
    ("C25", "calibrate a fused RELU on activated data", "a RELU layer without positive calibration values raised IndexError, and a RELU6 above 6 was not clipped"),
    ("C26", "calibrate the LSTM input gate with its own values", "the input gate output range came from the values of all gates of the first steps"),
    ("C26", "report the bias add of the LSTM", "the bias add calibration data were the recurrent add values"),
    ("C26", "update the bias scale of the LSTM with its input and kernel", "an update of the input scale left the LSTM biases with the old scale"),
    ("C27", "convert the keras layers without bias", "a Dense layer without bias got a zero bias of the input length; Conv2D and LSTM raised"),
    ("C28", "find the first ONNX value info", "the first value info of the graph was reported as missing"),
    ("C28", "describe the outputs of the ONNX model", "the outputs of the converted model were its inputs"),
    ("C28", "tabulate the sigmoid of large negative values", "a sigmoid with an input range below -709 raised OverflowError (onnx2json and tflite2json)"),
    ("C24", "build the QUBO of the layers in double precision", "a weight or bias on a code was floored to another code by the QUBO (single precision) than by the quantizer, and rounded a whole step off"),
    ("C31", "count colliding values, not repeated ones", "two equal floats with one code counted as a collision, and equal rounded floats with different codes gave negative counts"),
    ("C32", "split the FPGA input into chunks that fit the max batch size", "inputs shorter than a batch failed and chunks could be almost twice the largest batch"),
    ("C25", "tabulate the activation in its own data type", "the table of an activation held codes of the dense output's type when activation_dtype differs from bias_add_dtype"),
    ("C12", "accumulate the ONNX matrix multiplication in 64 bits", "a QLinearMatMul with rows of more than 33000 elements wrapped around 32 bits"),
    ("C18", "multiply narrow integer arrays by the fixed-point multiplier in 64 bits", "an int32 (or narrower) array times the integer-only multiplier wrapped around its container"),
    ("C19", "keep the limits of the bins of narrow data as floats", "int8 data gave a negative scale and uint8 data a zero point of 32640, the range wrapped around the data type"),
    ("C20", "clip the tails of narrow data in floats", "FixedPercentOptimizer interpolated the quantiles of int8 data in int8 (wrong limits)"),
    ("C09", "index the look-up table of an activation in 64 bits", "an int8 (or uint8) code looked up with an offset that leaves its container wrapped around and got another entry"),
    ("C10", "remove the zero point of the dense weights in 64 bits", "a fully connected layer built from uint8 (or int8) weight arrays with a zero point wrapped around their container"),
    ("C04", "reject float names as integer data types", "a name such as float16 was silently taken as the unsigned integer type of that width"),
    ("C26", "quantize the LSTM layers without bias", "quantizing a network with an LSTM layer without bias raised IndexError"),
    ("C08", "find the overflow of typed matrices", "arithmetic of typed matrices raised ValueError (truth value of an array)"),
    ("C34", "convert only the ONNX models of the folder", "the ONNX program emptied every other file of its folder (notes, images, documents) and, when run again, its own documents, before it read them as models"),
]
FIXED += [
    ("C35", "the KL divergence does not change its histograms and takes integer ones", "kl_divergence wrote 1e-10 into the caller's histograms, and was infinite for counts with an empty bin"),
    ("C35", "the scipy trimming takes the parameters of the type it optimizes for", "the noise of a range was measured with int8 parameters for any type"),
    ("C35", "reducing a histogram keeps groups of empty bins empty instead of NaN", "a group of empty bins became NaN, which the trimming then took for the least divergence"),
    ("C34", "the document of a model keeps the name of the model up to its suffix", "the programs replaced every 'onnx', 'tflite' or '.h5' of a path: net_onnx.onnx and net_json.onnx got the same document, net_json.json"),
    ("C35", "the entropy threshold counts the bins from the first candidate and from the lowest edge", "the entropy trimming cut a normal distribution at its middle"),
]
