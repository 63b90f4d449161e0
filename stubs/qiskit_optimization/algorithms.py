class MinimumEigenOptimizer:
    pass
