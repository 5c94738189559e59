"""Rules for benchmarks."""
from . import refs_bench
from .common import *

refs("verse.scenario.scenario:", {
    "bench_args": ("ExprConfig.from_arg", "FROM_ARG"), "bench_new": ("Benchmark.__init__", "NEW"), "bench_run": ("Benchmark.run", "RUN"),
    "bench_compare": ("Benchmark.compare_run", "COMPARE"), "bench_replace": ("Benchmark.replace_scenario", "REPLACE"), "bench_swap": ("Benchmark.swap_dl", "SWAP"),
}, vars(refs_bench))


def r01(ctx):
    check(ctx, "options-of-the-command-line", ("bench_args",), ("bench_new",))
    check(ctx, "run-and-its-figures", ("bench_run", RET(), SETS("timesteps", "traces", "cache_hits", "num_agent", "num_nodes", "leaves")))
    check(ctx, "two-runs-compared", ("bench_compare",), ("bench_compare", CALL("Benchmark.run", "a"), CALL("contains"), CALL("replace_scenario")), ("bench_replace",), ("bench_swap",))


RULES = {"R01": r01}
