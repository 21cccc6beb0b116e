#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the text stays reviewable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mechanism, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            mechanism=[dict(name=n, where=w) for n, w in mechanism],
            state=[dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
            observe_at=observe, hook_needed=None)))

S = "inflation/sdp/"; L = "inflation/lp/"; IP = "inflation/InflationProblem.py"; U = "inflation/utils.py"
SDP = S + "InflationSDP.py"; LP = L + "InflationLP.py"; NPA = S + "fast_npa.py"; QT = S + "quantum_tools.py"

p("C01", "Operator products have one canonical form, and it denotes the same product",
  "Bringing a product of measurement operators to canonical form never changes which operator it denotes: it only swaps neighbouring factors that commute, drops repeated adjacent projectors, and reports zero only when two orthogonal projectors can be brought together. Two products that can be turned into each other by swapping commuting neighbours get the same canonical form, which is the lexicographically smallest arrangement, and canonicalising twice changes nothing. A product in which orthogonal projectors can be brought together is always reported as zero, and repeated projectors that can be brought together are always merged.",
  ["inputs"], "all finite products over the operators of a scenario and all symmetric commutation relations",
  "The tests canonicalise a dozen fixed products; the guarantee is over every product of every length and every commutation relation.",
  [NPA, SDP],
  [("nb_lexmon_to_canonical", NPA), ("to_canonical_1d_internal", NPA), ("remove_projector_squares", NPA), ("lexmon_is_zero", NPA), ("mon_lexsorted", NPA), ("nb_all_commuting_q", NPA)],
  ["return value of to_canonical_1d_internal", "InflationSDP.momentmatrix"])

p("C02", "Operators commute exactly when the causal structure says so",
  "Two measurement operators are treated as commuting exactly when the causal structure allows it: when they have no copy of a quantum source in common, when they measure identical sources from different parties, or when they come from the same party, the same sources and the same setting; partial overlap on the sources joined through a quantum source means they do not commute. The relation is symmetric, every operator commutes with itself, classical sources alone never prevent commutation, and everything commutes in a scenario declared commuting.",
  ["inputs", "configurations"], "all pairs of operators and all assignments of classical and quantum sources and latents",
  "The tests check a handful of operator pairs in two scenarios.",
  [NPA, IP],
  [("nb_operators_commute", NPA), ("commutation_matrix", NPA), ("sources_to_check_for_party_pair_commutation", IP)],
  ["InflationProblem._default_notcomm", "InflationSDP._notcomm"])

p("C03", "Knowable, do-conditional and non-negative moments are recognised exactly",
  "A moment of one piece (one that does not factorise) is classified as directly readable from the observed distribution exactly when it involves at most one operator per party, at most one copy of every source, every parent of every party it mentions, and settings that agree with the outcomes of those parents; it is classified as an intervention probability exactly when it involves at most one copy of each source; a moment that factorises is classified so exactly when all its factors are. A relaxation takes a moment as non-negative only when each factor equals its own reverse up to commutation, and the positivity test accepts a product only if, factor by factor and party by party, each piece is a single projector surrounded by matching pairs of the same operators (or a plain single projector when sandwiches are not considered).",
  ["inputs", "configurations"], "all monomials, all networks and non-network DAGs",
  "Tests check specific monomials; the classification decides which variables receive numbers or positivity, for every monomial a program can contain.",
  [NPA, L + "numbafied.py", IP],
  [("nb_is_knowable", NPA), ("nb_is_do_conditional", L + "numbafied.py"), ("nb_is_physical", NPA), ("nb_indices_of_more_than_one_op_per_party_per_factor", NPA), ("_is_knowable_q_non_networks", IP), ("rectify_fake_setting", IP)],
  ["is_knowable, is_do_conditional, is_physical of a moment"])

p("C04", "Moments factorise into exactly their source-independent pieces",
  "Splitting a moment into factors puts two operators in the same factor exactly when they are linked by a chain of operators in that moment, each sharing a copy of a source with the next. Every operator of the moment appears in exactly one factor with the same multiplicity, the relative order of operators inside a factor is unchanged, and operators in different factors share no source copy.",
  ["inputs"], "all monomials over all scenarios, with any number of factors",
  "Two example monomials are tested; connectivity is a property of every overlap graph.",
  [NPA, IP, SDP, LP],
  [("nb_exists_shared_source", NPA), ("nb_overlap_matrix", NPA), ("nb_classify_disconnected_components", NPA), ("nb_monomial_to_components", NPA), ("factorize_monomial_1d", IP), ("factorize_monomial_2d", IP)],
  ["factors of a compound moment"])

p("C05", "Inflation symmetries are exactly the relabelings of source copies",
  "Every symmetry the library applies is a permutation of the operators obtained by relabelling copies of sources, the set of them is closed under composition and contains all relabelings, and each preserves parties, settings, outcomes, commutation, orthogonality and source overlap. Two moments are identified by symmetry exactly when some relabelling maps one to the other, the representative chosen is one of the identified moments, does not depend on which of them one starts from, and symmetrised columns and moment-matrix entries follow the same rule.",
  ["inputs", "configurations"], "all scenarios and inflation levels, all moments",
  "Tests look at fixed small orbits; group closure and orbit exactness range over all inflation levels and moments.",
  [IP, U, NPA, QT, SDP, LP, L + "monomial_classes.py"],
  [("format_permutations", U), ("perm_combiner", U), ("apply_source_perm", NPA), ("discover_lexorder_symmetries", IP), ("apply_inflation_symmetries", QT), ("reduce_inflation_indices", QT), ("_discover_columns_symmetries", SDP), ("_discover_inflation_orbits", LP)],
  ["lexorder_symmetries", "momentmatrix", "inflation_repr of a moment"])

p("C06", "Moment matrix entries coincide exactly when their operator products do",
  "For any list of generating monomials the moment matrix is symmetric, entry (i, j) is the zero entry exactly when the product of the adjoint of monomial i with monomial j vanishes, and two non-zero entries carry the same index exactly when their products have the same canonical form up to taking the adjoint. Indices are consecutive from one in the order of first appearance, and the accompanying dictionary maps each canonical product to its index and nothing else.",
  ["inputs"], "all generating sets and commutation/orthogonality relations",
  "Tests compare the number of distinct entries in a few matrices.",
  [QT, NPA, SDP],
  [("calculate_momentmatrix_1d_internal", QT), ("dot_mon", NPA), ("reverse_mon", NPA), ("_build_momentmatrix", SDP)],
  ["InflationSDP.momentmatrix", "InflationSDP.n_vars"])

p("C07", "Moments receive exactly the probabilities the given distribution assigns",
  "After a distribution is supplied, each fully known moment has as value exactly the probability of the event it describes, computed by summing the given conditional distribution over the parties not mentioned (at any of their settings), with settings and outcomes read per party in the declared order; a moment that factorises receives the product of the probabilities of its factors. Moments that are not readable from the distribution receive no value from it, and the values of the zero and the unit moment are 0 and 1.",
  ["inputs", "configurations"], "all distributions and all moments of all scenarios",
  "The tests check a few named marginals of two or three distributions.",
  [S + "monomial_classes.py", L + "monomial_classes.py", SDP, LP, S + "monomial_utils.py"],
  [("compute_marginal", S + "monomial_utils.py"), ("CompoundMoment.compute_marginal", S + "monomial_classes.py"), ("set_distribution", SDP), ("set_distribution", LP)],
  ["known_moments after set_distribution"])

p("C08", "Normalisation and positivity constraints hold for every genuine behaviour",
  "Every equality and inequality the library derives among moments, from normalisation of outcomes, column normalisation, expansion of last-outcome moments or inclusion-exclusion, is satisfied by the moments of every genuine (commuting or quantum) behaviour of the inflated scenario. For linear programs on commuting scenarios the constraints are also sufficient: any assignment of the moments obeying them for a set of compatible measurements is a non-negative, normalised joint distribution over the outcomes of those measurements.",
  ["inputs", "configurations"], "all behaviours of all scenarios",
  "Tests compare counts of equalities; validity is over every behaviour.",
  [QT, SDP, LP, L + "lp_utils.py"],
  [("construct_normalization_eqs", QT), ("expand_moment_normalisation", QT), ("minimal_sparse_equalities", LP), ("minimal_sparse_inequalities", LP), ("_discover_normalization_eqns", SDP)],
  ["moment_equalities", "moment_inequalities", "sparse equality and inequality matrices"])

p("C09", "The linear program handed to the solver is exactly the stated one",
  "Whatever objective, known values, bounds, equalities and inequalities are stated, the arrays handed to the linear-programming solver describe precisely that program: same variables, same coefficients, every constraint present once with its right sense and right-hand side, no other constraint. The primal and the dual formulations, and the dictionary and the sparse entry points, describe the same program, and the reported solution, objective value and certificate are those of that program.",
  ["inputs", "configurations"], "all linear programs over named variables",
  "Every solver test needs a commercial licence and compares a few optimal values.",
  [L + "lp_utils.py", LP, U],
  [("solveLP", L + "lp_utils.py"), ("solveLP_sparse", L + "lp_utils.py"), ("to_sparse", L + "lp_utils.py"), ("convert_dicts", L + "lp_utils.py"), ("expand_sparse_vec", U), ("vstack", U)],
  ["the solver task's input data", "the solution dictionary"])

p("C10", "The semidefinite program handed to the solver is exactly the stated one",
  "Whatever known values, semiknown relations, bounds, equalities, inequalities and objective are stated, the semidefinite program handed to the solver constrains the moment matrix to be exactly the linear combination of the stated moments with each known moment at its value and each semiknown moment at its multiple, with each stated constraint present with its sense. Substituting known and semiknown moments away changes neither the feasible set nor the objective, and constraints supplied by the user are not lost on the way to the solver.",
  ["inputs", "configurations"], "all semidefinite programs over a set of moments",
  "Solver tests need a licence; others never look at the program handed over.",
  [S + "sdp_utils.py", SDP],
  [("solveSDP_MosekFUSION", S + "sdp_utils.py"), ("_prepare_solver_arguments", SDP)],
  ["solver model", "arguments passed to the solver"])

p("C11", "A linear program's state depends only on the current settings, not on history",
  "After any sequence of setting or resetting values, distributions, bounds, objectives, and extra equalities or inequalities on a linear-programming relaxation, the program it describes is the one a fresh relaxation would describe given only the last setting of each kind. Resetting a kind removes all of its effects and nothing else (setting or resetting values also discards the extra equalities and inequalities, which are to be stated afterwards), inputs passed by the caller are not modified, and repeating a call changes nothing.",
  ["histories"], "all sequences of set and reset calls",
  "Tests try one or two reset sequences.",
  [LP],
  [("set_values / set_distribution", LP), ("set_objective", LP), ("set_bounds", LP), ("set_extra_equalities / set_extra_inequalities", LP), ("reset", LP)],
  ["arguments passed to the solver after a call sequence"],
  [("known_moments, objective, moment_lowerbounds, moment_upperbounds", "the stated program", LP)])

p("C12", "A semidefinite program's state depends only on the current settings",
  "After any sequence of setting or resetting values, distributions, bounds, objectives, and extra equalities or inequalities on a semidefinite relaxation, the program it describes is the one a fresh relaxation would describe given only the last setting of each kind. Resetting a kind removes all of its effects and nothing else (setting or resetting values also discards the extra equalities and inequalities, which are to be stated afterwards), and the outcome does not depend on which moments were looked up before.",
  ["histories"], "all sequences of set, reset and lookup calls",
  "Tests try one or two reset sequences.",
  [SDP],
  [("set_values / set_distribution", SDP), ("set_objective", SDP), ("set_bounds", SDP), ("set_extra_equalities / set_extra_inequalities", SDP), ("reset", SDP)],
  ["arguments passed to the solver after a call sequence"],
  [("known_moments, semiknown_moments, _processed_objective, _processed_moment_lowerbounds", "the stated program", SDP)])

p("C13", "Every name, symbol or array form of a moment resolves to that same moment",
  "A moment referred to by its printed name, an equivalent legacy name, a symbolic expression, an operator array, or the moment object itself resolves to one and the same moment, and distinct moments never share a printed name. Resolving what was printed gives back what was printed, and the factors of a product, or the commuting operators of a moment when each is written in full, may be written in any order.",
  ["inputs"], "all moments of all scenarios and all accepted ways of writing them",
  "Tests resolve a few names in one scenario.",
  [SDP, LP, IP, L + "monomial_classes.py", S + "monomial_classes.py"],
  [("_sanitise_monomial", SDP), ("_interpret_name", SDP), ("_interpret_atomic_string", SDP), ("_interpret_name", LP), ("_interpretation_to_name", IP)],
  ["set_values, set_objective and certificate keys"])

p("C14", "Certificates keep their meaning in every form they are reported",
  "The infeasibility certificate returned as a dictionary, as an expression, as a string or over probabilities denotes the same polynomial up to the requested chopping and rounding and one positive factor, and evaluating it on a distribution gives that polynomial's value at the probabilities of that distribution. Cleaning coefficients divides all of them by one positive number, zeroes exactly those below the tolerance, keeps every key, and never flips a sign.",
  ["inputs"], "all certificates and distributions",
  "Tests compare one certificate's string.",
  [U, SDP, LP],
  [("clean_coefficients", U), ("certificate_as_dict / probs / string", SDP), ("certificate_as_dict / probs / string", LP), ("evaluate_polynomial / evaluate_certificate", SDP)],
  ["certificate_as_dict, certificate_as_string, evaluate_certificate"])

p("C15", "Clique enumeration lists every clique once and exactly the maximal ones",
  "Given any compatibility graph, the enumeration returns the empty set and every set of pairwise compatible vertices exactly once, up to the requested size, and marks as maximal exactly those that no further vertex can extend.",
  ["inputs"], "all graphs",
  "No test enumerates cliques; every linear program over a non-commuting scenario depends on them.",
  [U, IP],
  [("all_and_maximal_cliques", U), ("all_and_maximal_compatible_templates", IP)],
  ["return value of the enumeration"])

p("C16", "The scenario built from a DAG is the inflated scenario of that DAG",
  "For any DAG, cardinalities and inflation levels, the scenario contains, exactly once, each operator formed by a party, one copy index for each source in that party's past (zero for others), each effective setting and each outcome. Effective settings correspond one to one to combinations of a private setting and the outcomes of all parents, operators are grouped into complete measurements, and factorisation is considered whenever two independent operators exist.",
  ["configurations"], "all supported DAGs, cardinalities and inflation levels",
  "Tests build five DAGs and compare shapes.",
  [IP],
  [("InflationProblem.__init__", IP), ("_interpret_operator", IP), ("mon_to_lexrepr", IP)],
  ["measurements", "lexorder", "effective_to_parent_settings", "hypergraph"])

p("C17", "Named generating sets contain exactly the monomials they name",
  "A generating set requested by hierarchy level, by a maximum number of operators per party, by a per-party specification or by physicality contains exactly the products it names (the operators of different parties written in party order), each distinct canonical product once, the identity first, and no product that vanishes; an explicit list is taken as it is given. For linear programs the set of monomials contains every joint event of compatible measurements up to the requested size and nothing else.",
  ["inputs", "configurations"], "all column specifications and scenarios",
  "Tests check lengths or one listing per specification.",
  [SDP, LP],
  [("build_columns", SDP), ("_build_cols_from_specs", SDP), ("_raw_monomials_as_lexboolvecs", LP)],
  ["generating_monomials", "monomials of the linear program"])

p("C18", "Exported files describe the same optimisation problem",
  "A problem written to a file, in any supported solver format, and read back according to that format is the same optimisation problem as the one that would be solved: same variables, known values, bounds, equalities, inequalities, objective and direction, to the precision of the numbers stated.",
  ["inputs", "configurations"], "all stated problems",
  "No reliable test reads back an exported file.",
  [L + "writer_utils.py", S + "writer_utils.py", L + "lp_utils.py"],
  [("write_to_lp", L + "writer_utils.py"), ("write_to_mps", L + "writer_utils.py"), ("write_to_sdpa", S + "writer_utils.py"), ("write_to_csv / write_to_mat", S + "writer_utils.py")],
  ["the written files"])

p("C19", "Known values propagate to products completely and consistently",
  "When values are set, a moment all of whose factors are known becomes known with the product of their values, and a moment with both known and unknown factors becomes, if requested, the known product times the moment of the unknown factors, or zero when one of the known factors is zero. Nothing else becomes known, explicitly supplied values take precedence over derived ones, and if only specified values are requested nothing is derived.",
  ["inputs", "histories"], "all value assignments on all scenarios",
  "Tests check two semiknown relations.",
  [SDP, LP, S + "monomial_classes.py", L + "monomial_classes.py"],
  [("set_values", SDP), ("_cleanup_after_set_values", SDP), ("evaluate", S + "monomial_classes.py"), ("set_values", LP)],
  ["known_moments, semiknown_moments"])

p("C20", "Distributions with a genuine classical model are never rejected",
  "If a distribution arises from a genuine model of the causal structure with the declared kinds of sources, then the assignment of every moment of the inflation by that model satisfies all constraints of the resulting program, including symmetry identifications, factorisation, known values and linearised polynomial identities, so no infeasibility can be certified.",
  ["inputs", "configurations"], "all causal structures, inflation levels, and models",
  "Solver-dependent tests are skipped without a licence and cover single distributions.",
  [SDP, LP, IP, QT],
  [("InflationLP program", LP), ("InflationSDP program", SDP)],
  ["the program's constraints evaluated at a model's moments"])

p("C21", "Reported critical parameters separate feasible from infeasible ones",
  "Maximising a parameter within the feasible set returns a value whose two sides, within the requested precision, are feasible and infeasible for the given program, under both the bisection and the certificate-based method. Symbolic values are evaluated at the parameter for every moment, options are passed on to the program unchanged, and a returned certificate belongs to the program solved.",
  ["inputs"], "all parametrised value assignments with a single critical value",
  "The only optimisation tests need a licensed solver.",
  ["inflation/optimization_utils.py", U],
  [("max_within_feasible", "inflation/optimization_utils.py"), ("make_numerical", U)],
  ["return value of max_within_feasible"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x) + "\n")
