"""Results depend on the values of the arguments only."""

from mon.watched import registry, shard_stats  # noqa: F401

RULE = (
    "A share of the workloads of all other properties, with every public function and method of the package "
    "wrapped: each deterministic call is made again with equal arguments (the same objects; read only copies which are "
    "strided or reversed in memory; new arrays and new bases; real data as complex, numbers as numpy numbers; or after "
    "overwriting the arrays an equal call returned), and has to give the same result. Calls which draw random numbers "
    "or figures, and those which exchange files, are left out. Non-trivial: at least one repeated call."
)
SHARES = True
SCALE = {"quick": 1, "thorough": 1}
R = registry("A03", "differs", "same_result", 0.1)
