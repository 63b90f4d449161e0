class NumPyMinimumEigensolver:
    pass


class QAOA:
    pass
