"""C35: elements of a batch are computed independently of each other."""
from pbt.batches import NAMES, cases, run
from pbt.core import facet

RULE = (
    "A case is one of the package's batched computations, a configuration, "
    "inputs, one of the axes along which elements are independent, and a "
    "selection of elements along it (with repetitions, in any order). "
    "Non-trivial: at least two elements, and not all of them once in order."
)
ASSUMPTIONS = [
    "batch elements of data, where results are homogeneous in them, are "
    "scaled by up to 1e3 up or down, so that leaks between them show",
    "results are compared to 2e-5 of the largest value of the element "
    "(1e-9 in double precision, 1e-4 for networks and splines)",
    "the Q scan chooses one Q, and the time-domain generator one frequency "
    "grid, for the whole batch: for these, elements are only permuted",
]


@facet(cases(NAMES), quick=2600, thorough=50000, shards=8)
def elements_do_not_affect_each_other(c, ctx):
    run(c, ctx)
