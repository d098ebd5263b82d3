"""C33: results depend only on the inputs and the fitted state."""
from pbt import histories

RULE = (
    "A case is one of the package's public computations, a configuration, "
    "inputs and a history of other calls. Non-trivial: the result is finite "
    "somewhere and the history holds at least one other call."
)
ASSUMPTIONS = [
    "SignalInverter and SignalReverser transform their input in place by "
    "design, and are left out; networks are in evaluation mode; samplers are "
    "called with the same seed",
    "repeated results are compared to a relative 1e-6 of their largest value "
    "(1e-12 in double precision), as different memory layouts may round "
    "differently",
]


histories.pure(
    __name__, quick=2400, layouts=1400, times=16, shards=(8, 6)
)
