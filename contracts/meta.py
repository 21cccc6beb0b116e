"""What evidence says about rules, trust and assumptions."""
COMMON = [
    "pyvc (the verification-condition generator in /verif/pyvc) and its model of Python and numpy",
    "z3 and cvc5",
]
ARRAYS = [
    "integers are mathematical: uint8/intc wrap-around is not modelled",
    "numba compiles the Python text faithfully (the bounded stand-in runs the compiled code)",
    "an injective map of {0..n-1} into itself is a permutation (pigeonhole)",
    "a word has exactly one lexicographic normal form (Anisimov-Knuth)",
]
STATE = [
    "moments are equal and hash alike exactly when they are the same element of an uninterpreted sort; dictionaries and sets are finite",
    "floats are reals; np.isclose, np.isnan and isinstance(.., Real) are uninterpreted predicates with the laws the contracts state",
    "recognising a moment is a function of what is given that either rejects it or returns a moment; what a moment evaluates to is used as a function of the moment, the values of its factors and the flag (as the contract of CompoundMoment.evaluate states)",
    "a Counter is a finite multiset, `elements` writes it out (length zero iff empty, strictly monotone); powers are an uninterpreted function; a product over a finite family does not depend on factors one",
    "moments have distinct names; a matrix of masks is determined by the index it marks",
    "printing, warning and collecting garbage do nothing",
    "preconditions of the contracts: no moment is given twice under different spellings; a moment of one factor is determined by it or its conjugate; assignments considered obey the known values and semiknown relations, which have no chains",
]


MATRICES = [
    "numpy arrays and scipy sparse matrices as modelled in pyvc/objnp.py: an array is a length and a function of the position, a sparse matrix its triplets; conversions between sparse formats keep the triplets; positions of distinct entries exist",
]
SOLVER = [
    "the MOSEK task holds the rows, bounds and objective it was given (putarow.., appendvars.. as modelled in contracts/lpsolve.py), and its solution items are what it found; weak duality (the dual problem handed over is the textbook dual of the stated primal) is not re-proved",
    "solver parameters are not set and nothing is printed (verbose 0) in the runs that are proved; relaxing presupposes something to relax and no objective",
]
PROBS = [
    "arrays of any number of axes: an entry of a sum over axes is known by the axes summed over and the index on each other axis; the axes that are left are numbered in order; indices are within range (outcomes and settings exist)",
    "rows given to compute_marginal are of distinct parties in ascending order (one operator per party, lexicographically sorted); settings_per_party and parents are as set up by InflationProblem.__init__",
]
ATOMS = [
    "the factors of a product are a finite multiset (the order in which sorting puts them is not modelled); names, symbols and the array of operators of a product are library functions of those of its factors, those of an atom opaque",
]
CRITICAL = [
    "scipy's bisect asks the function at any points, in any order, and returns a number: that this is within the tolerance of a sign change is scipy's; remembering answers (lru_cache) changes nothing because a program's answer depends on the values alone (C11, C12)",
]
RESULTS = [
    "a sum over a finite family ignores terms that are zero and does not depend on the order; division by zero is an unspecified number; rounding is an uninterpreted function of number and digits; a symbolic expression is its coefficients and, without symbols, its value",
]


def trusted(fs):
    out = list(COMMON)
    from . import PROPS
    arr = {f for v in PROPS.values() for f in v}
    st = [f for f in fs if f not in arr]
    if len(st) < len(fs):
        out += ARRAYS
    if st:
        out += STATE
        from . import state_contracts
        cs = state_contracts()
        where = {cs[f]["origin"] for f in st if f in cs}
        if where & {"matrices", "lpsolve"}:
            out += MATRICES
        if "lpsolve" in where:
            out += SOLVER
        if "probs" in where:
            out += PROBS
        if "atoms" in where:
            out += ATOMS
        if "critical" in where:
            out += CRITICAL
        if "results" in where:
            out += RESULTS
    return out


RULE = {}
LEVEL = {p: "exploration" for p in ("C21",)}  # proved for single functions only
ASSUME = {}
NA = {}
NOTE = {}


def note(pid, fs):
    n = NOTE.get(pid, "")
    if fs:
        n += (" " if n else "") + "Proved for all inputs, per function: " + ", ".join(fs) + "."
        n += " The functions that compose them are covered by run-time contract evaluation on generated cases (bounded, seeded), not by proof."
        n += " Trusted: " + "; ".join(trusted(fs)) + "."
    else:
        n += (" " if n else "") + "Bounded: contracts evaluated on generated cases only; nothing is proved for all inputs."
    return n
