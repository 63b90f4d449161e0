class QuantumCircuit:
    pass


def transpile(*a, **k):
    raise NotImplementedError
