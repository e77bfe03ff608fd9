"""Public functions leave their arguments as they were."""

from mon.watched import registry, shard_stats  # noqa: F401

RULE = (
    "A share of the workloads of all other properties, with every public function and method of the package "
    "wrapped: the arrays, dictionaries, lists and bases given to each call of the workload are recorded before "
    "and compared after. Non-trivial: at least one watched call."
)
SHARES = True
SCALE = {"quick": 1, "thorough": 1}
R = registry("A01", "changed", "arguments_unchanged", 0.12)
