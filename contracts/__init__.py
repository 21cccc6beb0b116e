"""Which contracts carry which property."""

COMPOSE = ["reverse_mon", "dot_mon", "nb_lexorder_idx", "nb_mon_to_lexrepr"]
CANON = ["nb_lexmon_to_canonical", "remove_projector_squares", "lexmon_is_zero"]

PROPS = {
    "C01": CANON + COMPOSE + ["nb_all_commuting_q"],
    "C02": ["nb_operators_commute", "commutation_matrix", "nb_all_commuting_q"],
    "C03": ["nb_is_knowable", "nb_is_do_conditional", "nb_exists_shared_source", "nb_overlap_matrix"],
    "C04": ["nb_exists_shared_source", "nb_overlap_matrix"],
    "C05": ["apply_source_perm"],
    "C06": ["reverse_mon", "dot_mon"] + CANON,
    "C16": ["nb_lexorder_idx", "nb_mon_to_lexrepr"],
    "C17": ["nb_outer_bitwise_or", "nb_outer_bitwise_xor", "nb_mon_to_lexrepr_bool"],
}


STATE = {
    "C03": ["InternalAtomicMonomial.__init__", "CompoundMoment.__init__", "InflationProblem._is_knowable_q_non_networks", "InflationSDP._atomic_knowable_q", "InflationLP._atomic_knowable_q"],
    "C07": ["compute_marginal", "InternalAtomicMonomial.__init__", "CompoundMoment.__init__", "InternalAtomicMonomial.compute_marginal", "CompoundMoment.compute_marginal", "CompoundMoment.evaluate",
            "InflationProblem.rectify_fake_setting", "InflationProblem._is_knowable_q_non_networks"] +
           [f"{c}.{m}" for c in ("InflationSDP", "InflationLP") for m in ("set_distribution", "_atomic_knowable_q", "atomic_monomials", "knowable_atoms", "set_values", "update_values")],
    "C09": ["InflationLP._mon_dict_to_coo_vec", "InflationLP.sparse_semiknown", "InflationLP.sparse_extra", "InflationLP._prepare_solver_matrices", "expand_sparse_vec", "partsextractor", "vstack",
            "drop_zero_rows", "canonical_order", "solveLP_sparse", "InflationLP.solve[", "InflationLP._sanitise_dict"],
    "C10": ["InflationSDP._update_bounds", "InflationSDP._update_objective", "InflationSDP._cleanup_after_set_values", "InflationSDP.set_objective", "InflationSDP.set_bounds",
            "InflationSDP.set_extra", "InflationSDP._prepare_solver_arguments", "InflationSDP._construct_mask_matrices",
            "InflationSDP.solve[", "InflationSDP._sanitise_dict"],
    "C11": ["InflationLP"],
    "C12": ["InflationSDP"],
    "C14": [f"{c}.{m}" for c in ("InflationLP", "InflationSDP") for m in ("certificate_as_dict", "certificate_as_probs", "probs_from_dict", "evaluate_polynomial", "evaluate_certificate", "_sanitise_dict")] + ["clean_coefficients"],
    "C19": ["InflationSDP.update_values", "InflationSDP.set_values", "InflationSDP._reset_values", "InflationLP.update_values", "InflationLP.set_values", "InflationLP._reset_values", "CompoundMoment.evaluate", "CompoundMoment.__init__"],
    "C21": ["make_numerical", "_maximize_via_bisect", "max_within_feasible", "InflationLP.solve[", "InflationSDP.solve["],
}


def load():
    from . import npa
    cs, invs = dict(npa.CONTRACTS), list(npa.INVARIANTS)
    return cs, invs


def state_contracts():
    from . import state, moments, solverargs, matrices, lpsolve, results, probs, atoms, critical
    return dict(state.CONTRACTS)


def state_names(pid):
    """contracts over object state that carry a property (a prefix names all variants)"""
    pre = STATE.get(pid, [])
    if not pre:
        return []
    return [n for n in state_contracts() if any(n.startswith(p) for p in pre)]


def all_names(pid):
    return list(PROPS.get(pid, [])) + state_names(pid)
