"""Names and enum values used by the converter; models are supplied by the checks (duck typed)."""


class TensorType:
    FLOAT32 = 0
    FLOAT16 = 1
    INT32 = 2
    UINT8 = 3
    INT64 = 4
    STRING = 5
    BOOL = 6
    INT16 = 7
    COMPLEX64 = 8
    INT8 = 9
    FLOAT64 = 10
    UINT64 = 12
    UINT32 = 15
    UINT16 = 16


class BuiltinOperator:
    ADD = 0
    DEQUANTIZE = 6
    FULLY_CONNECTED = 9
    LOGISTIC = 14
    RELU = 19
    SOFTMAX = 25
    TANH = 28
    RESHAPE = 22
    MEAN = 40
    PAD = 34
    QUANTIZE = 114
    HARD_SWISH = 117
    BATCH_MATMUL = 126
    HASHTABLE = 136
    VAR_HANDLE = 142
    GELU = 150


class Operator:
    pass


class Tensor:
    pass


class Model:
    current = None

    @classmethod
    def GetRootAsModel(cls, data, offset):
        return cls.current(bytes(data))
