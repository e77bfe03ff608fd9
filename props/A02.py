"""Results are flat arrays which fit the basis they come with."""

from mon.watched import registry, shard_stats  # noqa: F401

RULE = (
    "A share of the workloads of all other properties, with every public function and method of the package "
    "wrapped: each dictionary with a basis and data which a call of the workload returns holds a flat numeric "
    "array with one value for each (diagonal) element of the basis, and one eigenvalue for each state. "
    "Non-trivial: at least one watched call."
)
SHARES = True
SCALE = {"quick": 1, "thorough": 1}
R = registry("A02", "malformed", "fits_basis", 0.12)
