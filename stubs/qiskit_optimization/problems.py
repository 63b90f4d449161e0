class QuadraticProgram:
    pass
