from props.common import TR, run_spec

TITLE = "Result files hold exactly what was computed"
M = "kmcpy.simulator.results."
WT, WS, WP = M + "_write_trajectory_arrays", M + "_write_summary_results", M + "_write_property_records"
SP, JS = M + "_stored_property_payload", M + "_to_json_safe"


def sources(c):
    """What is written comes from the tracker's own record of the run."""
    run_spec(c, what=("ret",), calls=(TR + ".update_current_pass", TR + ".write_results"))
    c.refine(TR + ".write_results", """
def write_results(self, label=None):
    write_tracker_results(label=label, current_pass=self.current_pass, displacement=self.displacement,
                          hop_counter=self.hop_counter, occupations=self.state.occupations, results=self.results,
                          result_units=self.result_units, property_records=self._property_records)
""", what=("raise", "state"), calls=(M + "write_tracker_results",), opaque={M + "write_tracker_results"})
    c.refine(TR + ".return_current_info", """
def return_current_info(self):
    r = self.results
    if not r["time"]:
        raise ValueError("none")
    return (r["time"][-1], r["msd"][-1], r["jump_diffusivity"][-1], r["tracer_diffusivity"][-1], r["conductivity"][-1],
            r["havens_ratio"][-1], r["correlation_factor"][-1])
""", what=("ret", "raise", "state"))
    c.refine(TR + ".update_current_pass", """
def update_current_pass(self, current_pass):
    self.current_pass = current_pass
""", what=("raise", "state"))


def files(c):
    """Each quantity goes to its own file, named by the label and the pass."""
    c.refine(M + "write_tracker_results", """
def write_tracker_results(*, label, current_pass, displacement, hop_counter, occupations, results, result_units, property_records):
    prefix = f"{label}_{current_pass}" if label else str(current_pass)
    suffix = f"_{label}" if label else ""
    np.savetxt(f"displacement_{prefix}.csv.gz", displacement, delimiter=",")
    np.savetxt(f"hop_counter_{prefix}.csv.gz", hop_counter, delimiter=",")
    np.savetxt(f"current_occ_{prefix}.csv.gz", occupations, delimiter=",")
    pd.DataFrame(results).to_csv(f"results{suffix}.csv.gz", compression="gzip", index=False)
    with gzip.open(f"results_units{suffix}.json.gz", "wt", encoding="utf-8") as fh:
        json.dump(dict(result_units), fh, indent=2)
    payload = _stored_property_payload(property_records)
    if payload:
        with gzip.open(f"properties{suffix}.json.gz", "wt", encoding="utf-8") as fh2:
            json.dump(payload, fh2, indent=2)
""", what=("raise",), calls=("numpy.savetxt", ".to_csv", "json.dump", "gzip.open"), opaque={SP})


def payload(c):
    c.refine(SP, """
def _stored_property_payload(property_records):
    return [{"name": r.name, "step": int(r.step), "time": float(r.time), "value": _to_json_safe(r.value)}
            for records in property_records.values() for r in records]
""", what=("ret", "raise", "state"), opaque={JS})
    c.refine(JS, """
def _to_json_safe(value):
    if value is None or isinstance(value, (str, int, float, bool)):
        return value
    if isinstance(value, dict):
        return {str(k): _to_json_safe(v) for k, v in value.items()}
    if isinstance(value, (list, tuple)):
        return [_to_json_safe(v) for v in value]
    try:
        return jsanitize(value)
    except TypeError:
        return repr(value)
""", what=("ret", "raise"), opaque={JS})


def latest(c):
    """Records handed to the caller are those of the named callback, oldest first."""
    c.refine(TR + ".get_property_records", """
def get_property_records(self, name=None):
    if name is None:
        return {k: [r.__dict__.copy() for r in v] for k, v in self._property_records.items()}
    if name not in self._property_records:
        raise ValueError("none")
    return [r.__dict__.copy() for r in self._property_records[name]]
""", what=("ret", "raise", "state"))


def units(c):
    """Every column has its documented unit, and the table handed out is a copy."""
    c.refine(TR + ".result_units", """
def result_units(self):
    return {"time": "s", "msd": "Angstrom^2", "jump_diffusivity": "cm^2/s", "tracer_diffusivity": "cm^2/s",
            "conductivity": "mS/cm", "havens_ratio": "dimensionless", "correlation_factor": "dimensionless"}
""", what=("ret", "raise", "state"))
    c.refine("kmcpy.simulator.tracker._create_result_store", """
def _create_result_store():
    return {"time": [], "msd": [], "jump_diffusivity": [], "tracer_diffusivity": [], "conductivity": [], "havens_ratio": [],
            "correlation_factor": []}
""", what=("ret",))
    c.refine(M + "format_tracker_summary", """
def format_tracker_summary(*, current_pass, results, result_units, attached_values):
    rows = [["pass", current_pass, ""]]
    for f in ("time", "msd", "jump_diffusivity", "tracer_diffusivity", "conductivity", "havens_ratio", "correlation_factor"):
        rows.append([f, results[f][-1], result_units[f]])
    for name, value in attached_values.items():
        rows.append([name, value, "user-defined"])
    pd.DataFrame(rows, columns=["Property", "Value", "Unit"])
""", what=(), calls=("pandas.DataFrame",))


OBLIGATIONS = [sources, files, payload, latest, units]
