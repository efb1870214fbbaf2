from props.common import KMC, TR, run_spec

TITLE = "Production counts exactly the requested passes; equilibration leaves no trace"


def schedule(c):
    run_spec(c, what=("ret",), calls=(KMC + ".propose", KMC + ".update", TR, TR + ".update", TR + ".sample_properties",
                                      TR + ".update_current_pass", TR + ".write_results"),
             order=[(KMC + ".propose", TR + ".update"), (TR + ".update", KMC + ".update"),
                    (KMC + ".update", TR + ".sample_properties"), (TR + ".sample_properties", TR + ".update_current_pass"),
                    (TR + ".update_current_pass", TR + ".write_results"), (TR, TR + ".update")])
    s = c.summary(KMC + ".run", opaque=__import__("props.common").common.RUN_OPAQUE)
    from kstat.harness import callee_name
    new = [e for e in s.effects if e.kind == "call" and callee_name(e.target) == TR]
    tup = [e for e in s.effects if e.kind == "call" and callee_name(e.target) == TR + ".update"]
    ups = [e for e in s.effects if e.kind == "call" and callee_name(e.target) == KMC + ".update"]
    if len(new) == 1 and tup and len(ups) >= 2:
        eq = [e for e in ups if e.seq < tup[0].seq and e.loops != tup[0].loops]
        c.expect(all(e.seq < new[0].seq for e in eq), "P07.run:equilibration before tracking", "order", new[0].where,
                 "the tracker is created before equilibration finishes")


def zero_time(c):
    """update() advances the clock by exactly the waiting time it is given."""
    ST = "kmcpy.simulator.state.State"
    c.refine(KMC + ".update", """
def update(self, event, dt=0.0):
    self.simulation_state.apply_event(event, dt)
""", what=("state",), places={"time", "step"}, opaque={"kmcpy.event.base.EventLib.get_dependent_events"})


OBLIGATIONS = [schedule, zero_time]
