TITLE = "Each step draws the next event by its rate and an exponential waiting time"


def selection(c):
    c.refine("kmcpy.simulator.kmc.KMC.propose", """
def propose(self, events):
    u = self.rng.random()
    v = self.rng.random()
    total = self.prob_cum_list[-1]
    k = np.searchsorted(self.prob_cum_list / total, u, side="right")
    return events[k], -np.log(v) / total
""", what=("ret", "raise", "state"))


def wired(c):
    """run() proposes from the whole library and applies exactly what was proposed."""
    from props.common import run_spec
    run_spec(c, calls=("kmcpy.simulator.kmc.KMC.propose", "kmcpy.simulator.kmc.KMC.update"))


OBLIGATIONS = [selection, wired]
