"""What each property's check assumes and does not prove (written to the evidence)."""
REALS = ("floating point arithmetic is treated as exact real arithmetic extended with NaN/+inf/-inf; rounding, overflow to "
         "infinity and the sign of zero are not modelled (literals denote the simplest rational that rounds to them)")
INTS = "machine integers are treated as mathematical integers"
WRAP = ("machine integers are modelled with their widths (wrap-around, shifts, promotions) as transcribed in wv/mint.py, which is trusted "
        "and cross-checked against numpy by the concrete runs")
JAX = ("JAX's tracer, the XLA compiler and the semantics of the lax primitives as transcribed in wv/jaxsym.py are trusted "
       "(the transcription is cross-checked against real executions on every run)")
ELEM = ("exp, log, sqrt, tanh, logistic, real powers and JAX's PRNG primitives are uninterpreted functions with the axioms "
        "exp>0, exp(log x)=x for x>0, sqrt(x)>=0 and sqrt(x)^2=x for x>=0")
SOLVE = "the SMT solvers (z3, cvc5) and the hand-written term simplifier wv/terms.py are trusted"
HOST = ("wv/pysym.py (symbolic execution of the module's own text by CPython, with loops cut at their heads) and the stand-ins for "
        "dependencies below are trusted; every contract also runs concretely against the real dependencies on each check")
OPAQUE = ("user functions are opaque (uninterpreted); they are pure functions of what they are given, and their derivative, batching and scan "
          "rules are uninterpreted as well")

TRACED = [REALS, INTS, JAX, ELEM, SOLVE]

BY_PROPERTY = {
    **{p: TRACED for p in ("A01", "A02", "A03", "A04", "A05", "A08")},
    "A06": TRACED + [OPAQUE, HOST, "for the Python loops: jax.tree_util, jnp.stack (the rows in order) and random key splitting are contracts; "
                     "the function's init/apply are arbitrary"],
    "A07": TRACED + [OPAQUE],
    "A09": TRACED + [OPAQUE],
    "A10": TRACED + [OPAQUE, "an optax gradient transformation is any pair of functions (init, update)",
                     "Newton: that eps*I plus a sum of squares is invertible is argued on paper; the inverse is represented by its equations"],
    "A11": TRACED + [OPAQUE, HOST, "host loop: the environment's reset/step, the agent, Haiku's init/apply and callbacks are arbitrary functions with "
                     "effects only on themselves; tqdm is the identity; random keys are tokens"],
    "A12": [REALS, WRAP, JAX, SOLVE, HOST, "xarray containers are mappings of variables with dims, coords and values; pandas offsets floor times monotonically to "
            "a time not after them; times are totally ordered and non-decreasing on each stream; numpy arrays of opaque elements are functions of "
            "their positions; unroll_transform_with_state is used through the contract proved in A06"],
    "A13": [WRAP, SOLVE, HOST, "pandas.Timestamp/numpy datetime64 are numbers of their unit since 1970 (NaT the minimum); sklearn's LabelEncoder is an order-preserving bijection "
            "between the distinct values fitted and their ranks, an error otherwise"],
    "A14": [REALS, SOLVE, HOST, "numba compiles the kernel's text faithfully (the concrete runs go through the compiled kernel); pandas frames are labelled arrays with unique columns"],
    "A15": [SOLVE, HOST, "xarray and pandas containers are arrays with named axes and coordinates per axis; stacking and unstacking of levels keep every row and column; "
            "unroll_transform_with_state is used through the contract proved in A06"],
    "A16": [SOLVE, HOST, "time.time and psutil answer arbitrary numbers; tracemalloc and gc are not modelled; arrays are opaque values with a size, jnp.copy and .copy() give "
            "a new value equal to the old one", "durations and thresholds are real numbers"],
    "A17": [REALS, INTS, SOLVE, HOST, "jnp indexing, roll, sort, where and at[].set/add are contracts on arrays of opaque rows; Flax's variables are mutable cells that "
            "hold their value between steps; the Buffer and EWMA submodules are used through the contracts proved in A02 and A01; Dense and attention layers are opaque"],
    "A18": [REALS, SOLVE, HOST, "Flax modules are opaque functions called with the arguments given; Flax's variables are mutable cells; registering a "
            "module as an attribute makes it a submodule of that name"],
    "A19": [REALS, INTS, SOLVE, HOST, "statistics.mean/median/stdev, sum, min, max, list, deque and slices are contracts on sequences of any length; time.time answers arbitrary "
            "non-decreasing numbers; module names are compared by equality only"],
}


def of(prop):
    return BY_PROPERTY.get(prop, TRACED)
