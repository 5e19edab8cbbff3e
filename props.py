"""Which obligations decide which property.

Each entry: list of (unit name prefix, wanted obligation prefixes or None, unwanted obligation prefixes)."""
NOSTOP = ("stop:", "frame:")

PROX_GL = [("soft_thresholding_off_diagonal[", None, ("frame:",)), ("prox_logdet[", None, ("frame:",)), ("init_precision[", None, ("frame:",))]
PROX_LAT = [("prox_trace_indicator[", None, ("frame:",))]
PROX_PSI = [("check_norm_prox", None, ("frame:",))]

PROPS = {
    "C01": [("gl[", None, NOSTOP), ("lemma:gl", None, ())] + PROX_GL,
    "C02": [("tgl[", None, NOSTOP), ("lemma:tgl", None, ())] + PROX_GL + PROX_PSI,
    "C03": [("lgl[", None, NOSTOP), ("lemma:lgl", None, ())] + PROX_GL + PROX_LAT,
    "C04": [("ltgl[", None, NOSTOP), ("lemma:ltgl", None, ())] + PROX_GL + PROX_LAT + PROX_PSI,
    "C05": [("ktgl[", None, NOSTOP), ("kltgl[", None, NOSTOP), ("lemma:ktgl", None, ())] + PROX_GL + PROX_LAT + PROX_PSI,
    "C06": [("ltmd[", None, NOSTOP), ("inf[", None, NOSTOP), ("lemma:l", None, ()), ("prox_laplacian[", None, ("frame:",))] + PROX_GL[:1] + PROX_LAT + PROX_PSI,
    "C07": [(p + "[", ("stop:",), ()) for p in ("gl", "tgl", "lgl", "inf", "ltgl", "ltmd", "ktgl", "kltgl")],
    "C08": [(p, None, ("frame:",)) for p in ("soft_thresholding", "blockwise", "prox_")],
    "C09": [(p, None, ("frame:",)) for p in ("check_norm_prox", "l1_norm", "l2_norm", "linf_norm", "prox_linf", "matrix_l1", "l1_od", "norm:")],
    "C10": [(p, None, ("frame:",)) for p in ("log_likelihood", "criterion:", "objective:", "batch_logdet")],
    "C11": [("fb:", None, ("frame:",))],
    "C12": [("update_", None, ("frame:",))],
    "C13": [("estimator:", None, ("frame:",))],
    "C14": [(p, None, ("frame:",)) for p in ("structure_error", "error_norm", "error_rank", "normalize_matrix")],
    "C15": [("glm:", None, ("frame:",)), ("soft_thresholding[", None, ("frame:",)), ("soft_thresholding_sign", None, ("frame:",))],
    "C16": [(p, None, ("frame:",)) for p in ("dataset.", "models.", "ising.energy", "ising.conditional", "ising.gibbs", "ising.sampler", "ising.update", "ising.direct", "poisson.update", "poisson.sampler")],
    "C17": [(p, None, ("frame:",)) for p in ("lasso", "group_lasso", "overlap.", "lemma:lasso", "soft_thresholding[", "soft_thresholding_sign", "soft_thresholding_vector")],
    "C22": [("stability.", None, ()), ("cluster.", None, ())],
    "C20": [("missing.", None, ())],
    "C23": [("bayes.", None, ())],
    "C24": [("gwishart.", None, ())],
    "C25": [("discriminant.", None, ())],
    "C21": [("tising", None, ("frame:",)), ("tpoisson", None, ("frame:",)), ("glm:ising.gradient", None, ("frame:",)), ("glm:ising.iteration", None, ("frame:",))] + PROX_GL[:1] + PROX_PSI,
    "C18": [(p, None, ("frame:",)) for p in ("get_diagonal", "create_from", "fill_diagonal", "batch_logdet", "is_pos_", "positive_definite", "ensure_posdef", "threshold", "compose", "convert_data", "check_array_dim", "check_input", "upper_to", "flatten")],
    "C19": [("", ("frame:",), ())],
}


def units_of(prop, names):
    """-> {unit: predicate on obligation names}"""
    out = {}
    for pre, want, unwant in PROPS.get(prop, []):
        for n in names:
            if n.startswith(pre) and n not in out:
                out[n] = (want, unwant)
    return out


def relevant(name, filt):
    want, unwant = filt
    if any(name.startswith(u) for u in unwant):
        return False
    return want is None or any(name.startswith(w) for w in want)
