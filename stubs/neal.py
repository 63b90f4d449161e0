import dimod


class SimulatedAnnealingSampler:
    """An ideal annealer: always returns a ground state first."""

    def sample(self, bqm, **kw):
        return dimod.ExactSolver().sample(bqm)
