import numpy as np

from . import activations


class _Variable(np.ndarray):
    def numpy(self):
        return np.array(self)


class Layer:
    def __init__(self, name=None, weights=None, **kw):
        self.name = name or type(self).__name__.lower()
        self._w = [np.array(w, dtype=np.float32) for w in (weights or [])]

    @property
    def weights(self):
        return [w.copy().view(_Variable) for w in self._w]

    trainable_weights = trainable_variables = variables = weights

    @property
    def kernel(self):
        return self.weights[0]

    @property
    def bias(self):
        w = self.weights
        return w[-1] if self.use_bias else None

    @property
    def use_bias(self):
        return len(self._w) > (2 if isinstance(self, LSTM) else 1)

    def count_params(self):
        return sum(w.size for w in self._w)

    def get_weights(self):
        return [w.copy() for w in self._w]

    def set_weights(self, weights):
        weights = [np.array(w, dtype=np.float32) for w in weights]
        if [w.shape for w in weights] != [w.shape for w in self._w]:
            raise ValueError("weight shapes do not match")
        self._w = weights

    def get_config(self):
        return {"name": self.name}


class Dense(Layer):
    """weights = [kernel (in, units)] or [kernel, bias]"""

    def __init__(self, units, activation="linear", name=None, weights=None):
        super().__init__(name, weights)
        self.units = units
        self.activation = getattr(activations, activation) if isinstance(activation, str) else activation

    def __call__(self, x):
        y = np.asarray(x, dtype=np.float32) @ self._w[0]
        if len(self._w) > 1:
            y = y + self._w[1]
        return self.activation(y) if self.activation is not None else y

    def get_config(self):
        return {"name": self.name, "units": self.units}


class LSTM(Layer):
    """weights = [kernel (in, 4u), recurrent (u, 4u), bias (4u) or none]; gate order i, f, c, o"""

    def __init__(self, units, return_sequences=False, name=None, weights=None, batch_input_shape=None):
        super().__init__(name, weights)
        self.units = units
        self.return_sequences = return_sequences
        self._batch_input_shape = batch_input_shape

    @property
    def recurrent_kernel(self):
        return self.weights[1]

    def __call__(self, x):
        x = np.asarray(x, dtype=np.float32)
        W, U, B = [*self._w, 0][:3]
        u = self.units
        h = np.zeros((x.shape[0], u), np.float32)
        c = np.zeros((x.shape[0], u), np.float32)
        out = []
        for t in range(x.shape[1]):
            z = x[:, t] @ W + h @ U + B
            i, f, o = (activations.sigmoid(z[:, k * u:(k + 1) * u]) for k in (0, 1, 3))
            c = f * c + i * np.tanh(z[:, 2 * u:3 * u])
            h = o * np.tanh(c)
            out.append(h)
        return np.stack(out, 1) if self.return_sequences else h

    def get_config(self):
        return {"name": self.name, "units": self.units, "return_sequences": self.return_sequences}


class Dropout(Layer):
    def __call__(self, x):
        return x


class InputLayer(Layer):
    def __call__(self, x):
        return x


class Input(InputLayer):
    pass


class Flatten(Layer):
    pass


class Conv2D(Layer):
    def __init__(self, strides=(1, 1), padding="valid", activation="linear", name=None, weights=None):
        super().__init__(name, weights)
        self.strides, self.padding = strides, padding
        self.activation = getattr(activations, activation) if isinstance(activation, str) else activation


class MaxPooling2D(Layer):
    def __init__(self, strides=(2, 2), padding="valid", pool_size=(2, 2), name=None):
        super().__init__(name)
        self.strides, self.padding, self.pool_size = strides, padding, pool_size


class BatchNormalization(Layer):
    pass


class GRU(Layer):
    pass


class Activation(Layer):
    pass


class Reshape(Layer):
    pass


class AveragePooling2D(Layer):
    pass


class Embedding(Layer):
    pass


class Add(Layer):
    pass


class LeakyReLU(Layer):
    pass
