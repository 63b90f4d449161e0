"""The simanneal.Annealer algorithm (same schedule, acceptance rule and return value; no output, no signals)."""
import copy
import math
import random


class Annealer:
    Tmax = 25000.0
    Tmin = 2.5
    steps = 50000
    updates = 100
    copy_strategy = "deepcopy"
    best_state = None
    best_energy = None

    def __init__(self, initial_state=None, load_state=None):
        self.state = self.copy_state(initial_state)

    def copy_state(self, state):
        return copy.deepcopy(state) if self.copy_strategy == "deepcopy" else state.copy()

    def update(self, *args, **kwargs):
        pass

    def anneal(self):
        step = 0
        if self.Tmin <= 0.0:
            raise Exception('Exponential cooling requires a minimum temperature greater than zero.')
        Tfactor = -math.log(self.Tmax / self.Tmin)
        T = self.Tmax
        E = self.energy()
        prevState = self.copy_state(self.state)
        prevEnergy = E
        self.best_state = self.copy_state(self.state)
        self.best_energy = E
        while step < self.steps:
            step += 1
            T = self.Tmax * math.exp(Tfactor * step / self.steps)
            dE = self.move()
            if dE is None:
                E = self.energy()
                dE = E - prevEnergy
            else:
                E += dE
            if dE > 0.0 and math.exp(-dE / T) < random.random():
                self.state = self.copy_state(prevState)
                E = prevEnergy
            else:
                prevState = self.copy_state(self.state)
                prevEnergy = E
                if E < self.best_energy:
                    self.best_state = self.copy_state(self.state)
                    self.best_energy = E
        self.state = self.copy_state(self.best_state)
        return self.best_state, self.best_energy
