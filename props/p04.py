from props.common import KMC

TITLE = "Every event whose rate a hop can change is recomputed after it"


def matrix(c):
    """dependencies[i] = every j sharing a site (endpoint or environment) with i."""
    c.refine("kmcpy.event.base.EventLib.generate_event_dependencies", """
def generate_event_dependencies(self):
    deps = []
    for a in self.events:
        sa = set(a.mobile_ion_indices) | set(a.local_env_indices)
        deps.append([j for j, b in enumerate(self.events) if sa & (set(b.mobile_ion_indices) | set(b.local_env_indices))])
    self.event_dependencies = deps
    return deps
""", what=("ret", "raise", "state"))


def lookup(c):
    """Lookup never works from a missing or outdated matrix: it is rebuilt first."""
    G = "kmcpy.event.base.EventLib.generate_event_dependencies"
    c.handed_out("kmcpy.event.base.EventLib.get_dependent_events", "event_dependencies", "P04.dependencies handed out are a copy",
                 inner=True, opaque={"kmcpy.event.base.EventLib.generate_event_dependencies"})
    c.refine("kmcpy.event.base.EventLib.get_dependent_events", """
def get_dependent_events(self, event_index):
    if self.event_dependencies is None or len(self.event_dependencies) != len(self.events):
        self.generate_event_dependencies()
    if event_index >= len(self.event_dependencies):
        return []
    return list(self.event_dependencies[event_index])
""", what=("ret", "raise"), calls=(G,), opaque={G})


def available(c):
    """A library read from a file always carries the dependency matrix of all of its events."""
    L = "kmcpy.event.base.EventLib"
    c.refine(L + ".from_file", """
def from_file(cls, filename):
    data = loadfn(filename, cls=None)
    if isinstance(data, list):
        raise ValueError("legacy")
    lib = cls.from_dict(data)
    if lib.event_dependencies is None:
        lib.generate_event_dependencies()
    return lib
""", what=("ret", "raise"), calls=(L + ".from_dict", L + ".generate_event_dependencies"),
             opaque={L + ".from_dict", L + ".generate_event_dependencies"})
    from props.p18 import stored
    stored(c)


def site_map(c):
    """The site-to-event map lists each event under every site it involves."""
    c.refine("kmcpy.event.base.EventLib.add_event", """
def add_event(self, event):
    k = len(self.events)
    self.events.append(event)
    for site in list(event.mobile_ion_indices) + list(event.local_env_indices):
        if site not in self.site_to_events:
            self.site_to_events[site] = []
        self.site_to_events[site].append(k)
""", what=("ret", "raise", "state"), stores=("site_to_events", "events"))
    c.refine("kmcpy.event.base.EventLib.get_events_involving_site", """
def get_events_involving_site(self, site_index):
    return self.site_to_events.get(site_index, [])
""", what=("ret", "raise", "state"))


OBLIGATIONS = [matrix, lookup, available, site_map]
