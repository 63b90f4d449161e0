"""Minimal eager TensorFlow stand-in (see DESIGN.md): only what the code under test calls."""
import numpy as _np
from . import keras, lite  # noqa: F401


class _Math:
    @staticmethod
    def sigmoid(x):
        a = _np.asarray(x)
        if a.dtype.kind != "f":
            a = a.astype(_np.float32)
        out = _np.empty_like(a)
        pos = a >= 0
        e = _np.exp(-_np.abs(a))
        out = _np.where(pos, 1 / (1 + e), e / (1 + e)).astype(a.dtype)
        return out if out.ndim else out[()]

    @staticmethod
    def tanh(x):
        a = _np.asarray(x)
        return _np.tanh(a if a.dtype.kind == "f" else a.astype(_np.float32))


math = _Math()
sigmoid = math.sigmoid
tanh = math.tanh
float32, float64, int32, int64 = _np.float32, _np.float64, _np.int32, _np.int64
nn = keras.activations
convert_to_tensor = constant = _np.asarray
matmul, concat, zeros, transpose, reshape, split = _np.matmul, _np.concatenate, _np.zeros, _np.transpose, _np.reshape, _np.split
__version__ = "0-stub"
