from neal import SimulatedAnnealingSampler as SteepestDescentSolver  # noqa: F401
