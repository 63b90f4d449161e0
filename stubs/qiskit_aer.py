class Aer:
    pass
