TITLE = "Fitted coefficients predict what the fit reported"
F = "kmcpy.models.fitting.fitter.LCEFitter"
LP, LH = "kmcpy.models.parameters.LCEModelParameters", "kmcpy.models.parameters.LCEModelParamHistory"


def lasso(c):
    """Coefficients and constant are those of the unscaled features, and the reported predictions are theirs."""
    c.refine(F + "._fit_lasso_values", """
def _fit_lasso_values(correlation_matrix, e_kra, weight, alpha, max_iter, normalize):
    from sklearn.linear_model import Lasso
    import numpy as np
    x = np.asarray(correlation_matrix, dtype=float)
    y = np.asarray(e_kra, dtype=float)
    w = None if weight is None else np.asarray(weight, dtype=float)
    kw = {} if w is None else {"sample_weight": w}
    if not normalize:
        est = Lasso(alpha=alpha, max_iter=max_iter, fit_intercept=True)
        est.fit(x, y, **kw)
        return est.coef_, est.intercept_, est.predict(x)
    x0 = np.mean(x, axis=0) if w is None else np.average(x, axis=0, weights=w)
    y0 = float(np.mean(y)) if w is None else float(np.average(y, weights=w))
    scale = np.sqrt(np.sum((x - x0) ** 2, axis=0))
    scale[scale == 0.0] = 1.0
    est = Lasso(alpha=alpha, max_iter=max_iter, fit_intercept=False)
    est.fit((x - x0) / scale, y - y0, **kw)
    keci = est.coef_ / scale
    const = y0 - float(np.dot(x0, keci))
    return keci, const, x @ keci + const
""", what=("ret", "raise"), calls=(".fit", "sklearn.linear_model.Lasso"))


def cross_validation(c):
    """The leave-one-out error refits without each sample in turn and predicts exactly that sample."""
    c.refine(F + "._leave_one_out_rmse", """
def _leave_one_out_rmse(cls, correlation_matrix, e_kra, alpha, max_iter, normalize):
    import numpy as np
    x = np.asarray(correlation_matrix, dtype=float)
    y = np.asarray(e_kra, dtype=float)
    errors = []
    for k in range(len(y)):
        mask = np.ones(len(y), dtype=bool)
        mask[k] = False
        keci, const, _ = cls._fit_lasso_values(x[mask], y[mask], weight=None, alpha=alpha, max_iter=max_iter, normalize=normalize)
        p = float(x[k] @ keci + const)
        errors.append((float(y[k]) - p) ** 2)
    return float(np.sqrt(np.mean(errors)))
""", what=("ret", "raise"), opaque={F + "._fit_lasso_values"})


def fit(c):
    """A fit stores, returns and saves the coefficients it computed, with the metadata they are bound to."""
    SAVE = F + "._save_fit_results_history"
    c.refine(F + ".fit", """
def fit(self, alpha, max_iter=1000000, ekra_fname="e_kra.txt", keci_fname="keci.txt", weight_fname="weight.txt",
        corr_fname="correlation_matrix.txt", lce_params_fname="lce_params.json", lce_params_history_fname="lce_params_history.json",
        fit_results_fname=None, normalize=True, orbit_fingerprints=None, local_environment_hash=None):
    from sklearn.metrics import root_mean_squared_error
    from copy import copy
    from datetime import datetime
    import numpy as np
    y = np.loadtxt(ekra_fname)
    w = np.loadtxt(weight_fname)
    x = np.loadtxt(corr_fname)
    w0 = copy(w)
    keci, const, pred = self._fit_lasso_values(correlation_matrix=x, e_kra=y, weight=w, alpha=alpha, max_iter=max_iter,
                                               normalize=normalize)
    if orbit_fingerprints is not None and len(keci) != len(orbit_fingerprints):
        raise ValueError("length")
    loocv = self._leave_one_out_rmse(correlation_matrix=x, e_kra=y, alpha=alpha, max_iter=max_iter, normalize=normalize)
    rmse = root_mean_squared_error(y, pred)
    np.savetxt(fname=keci_fname, X=keci, fmt="%.8f")
    now = datetime.now()
    p = LCEModelParameters(keci=keci.tolist(), empty_cluster=const, cluster_site_indices=[], weight=w0.tolist(), alpha=alpha,
                           time_stamp=now.timestamp(), time=now.strftime("%m/%d/%Y, %H:%M:%S"), rmse=rmse, loocv=loocv,
                           normalize=normalize, orbit_fingerprints=orbit_fingerprints, local_environment_hash=local_environment_hash)
    self.model_parameters = p
    if fit_results_fname:
        self._save_fit_results_history(p, fit_results_fname)
    if lce_params_fname:
        p.to(lce_params_fname)
    if lce_params_history_fname:
        if os.path.exists(lce_params_history_fname):
            h = LCEModelParamHistory.from_file(lce_params_history_fname)
            h.append(p)
            h.to(lce_params_history_fname)
        else:
            h = LCEModelParamHistory()
            h.append(p)
            h.to(lce_params_history_fname)
    return p, pred, y
""", what=("ret", "state", "raise"), calls=(LP + ".to", LH + ".to", LH + ".append", SAVE, "numpy.savetxt"),
             opaque={F + "._fit_lasso_values", F + "._leave_one_out_rmse", SAVE, LP + ".to", LH + ".to", LH + ".from_file", LH + ".append"})
    cols = ("time_stamp", "time", "keci", "empty_cluster", "weight", "alpha", "rmse", "loocv")
    extra = ("normalize", "orbit_fingerprints", "local_environment_hash")
    c.refine(SAVE, """
def _save_fit_results_history(model_parameters, fit_results_fname):
    import pandas as pd
    need = %r
    cols = %r
    row = [%s]
    try:
        df = pd.read_json(fit_results_fname, orient="index")
        if not set(need).issubset(df.columns):
            raise ValueError("schema")
        if "normalize" not in df.columns:
            df["normalize"] = True
        if "orbit_fingerprints" not in df.columns:
            df["orbit_fingerprints"] = None
        if "local_environment_hash" not in df.columns:
            df["local_environment_hash"] = None
        both = pd.concat([df[cols], pd.DataFrame([row], columns=cols)], ignore_index=True)
        both.to_json(fit_results_fname, orient="index", indent=4)
    except Exception:
        df = pd.DataFrame([row], columns=cols)
        df.to_json(fit_results_fname, orient="index", indent=4)
""" % (list(cols), list(cols + extra), ", ".join("model_parameters." + k for k in cols + extra)), what=(), calls=(".to_json",))


def records(c):
    """A saved fit is read back as it was written; of several legacy records the latest counts."""
    EX = F + "._extract_serialized_record"
    c.refine(EX, """
def _extract_serialized_record(payload):
    if "keci" in payload:
        return payload
    records = []
    for k, v in payload.items():
        if not isinstance(v, dict):
            continue
        try:
            records.append((int(k), v))
        except (TypeError, ValueError):
            continue
    if records:
        return max(records, key=lambda item: item[0])[1]
    raise ValueError("schema")
""", what=("ret", "raise"))
    c.refine(F + ".from_dict", """
def from_dict(cls, payload):
    if not isinstance(payload, dict):
        raise ValueError("dict")
    record = cls._extract_serialized_record(payload)
    obj = cls()
    obj.model_parameters = LCEModelParameters.from_dict(record)
    return obj
""", what=("ret", "raise"), opaque={EX, LP + ".from_dict"})
    c.refine(F + ".from_file", "def from_file(cls, filename):\n    return cls.from_dict(loadfn(filename, cls=None))\n", what=("ret",),
             opaque={F + ".from_dict"})
    keys = ("time_stamp", "time", "weight", "alpha", "keci", "empty_cluster", "rmse", "loocv", "normalize")
    c.refine(F + ".as_dict", "def as_dict(self):\n    d = {'@module': self.__class__.__module__, '@class': self.__class__.__name__, "
             + ", ".join(f"'{k}': self.model_parameters.{k}" for k in keys) + "}\n"
             + "".join(f"    if self.model_parameters.{k} is not None:\n        d['{k}'] = self.model_parameters.{k}\n"
                       for k in ("orbit_fingerprints", "local_environment_hash")) + "    return d\n", what=("ret", "state"))
    c.refine(F + ".to", "def to(self, filename):\n    dumpfn(self.as_dict(), filename, indent=4)\n", what=(),
             calls=("monty.serialization.dumpfn",), opaque={F + ".as_dict"})


def width(c):
    """Numbers are kept at full width."""
    c.full_width(["kmcpy.models.fitting.fitter.LCEFitter." + x for x in ("_fit_lasso_values", "_leave_one_out_rmse", "fit")])


OBLIGATIONS = [lasso, cross_validation, fit, records, width]
