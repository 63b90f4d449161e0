from . import activations, layers, models  # noqa: F401


class Model:
    def __init__(self, layers):
        self.layers = list(layers)

    def get_layer(self, name=None, index=None):
        return self.layers[index] if index is not None else next(v for v in self.layers if v.name == name)

    def get_weights(self):
        return [w for v in self.layers for w in v.get_weights()]


class Sequential(Model):
    pass
