class COBYLA:
    pass


class SPSA:
    pass
