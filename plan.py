"""Which runs decide which property. shards: processes with different seeds; scale: multiplier of the case counts."""


def J(variant="plain", mode="", q=8, t=8, qs=1.0, ts=1.0, cores=1, timeout=240):
    return dict(variant=variant, mode=mode, shards=dict(quick=q, thorough=t), scale=dict(quick=qs, thorough=ts), cores=cores, timeout=timeout)


PLAN = {
    "P01": [J(cores=2, qs=5)], "P02": [J(cores=2, qs=4)], "P03": [J(qs=8)], "P04": [J(cores=2, qs=6)],
    "P05": [J("tsan", cores=2, qs=2.5), J("tsan", mode="rng", q=1, t=2)], "P06": [J(cores=2, qs=2)],
    "P07": [J("asan"), J("asan", mode="helpers", q=2), J("asan", mode="tools", q=2), J("asan", mode="search", q=2), J("asan", mode="pool", q=2, cores=2),
            J("vg", q=2, qs=0.15), J("vg", mode="helpers", q=1, qs=0.15), J("vg", mode="tools", q=1, qs=0.3), J("vg", mode="search", q=1, qs=0.3)],
    "P08": [J(qs=7)], "P09": [J(qs=7)], "P10": [J(qs=4), J(mode="raw", qs=4)], "P11": [J(qs=4), J(mode="raw", qs=4)],
    "P12": [J(qs=4), J(mode="raw", qs=4)], "P13": [J(qs=10)], "P14": [J(qs=7)], "P15": [J(qs=6)], "P16": [J(qs=12)], "P17": [J(qs=7)], "P18": [J(qs=5)],
    "P19": [J(qs=7)], "P20": [J(qs=6)], "P21": [J(qs=7)], "P22": [J(qs=4), J(mode="policy", qs=4)], "P23": [J(qs=12)],
    "P24": [J(qs=6)], "P25": [J(q=4, qs=3), J(mode="effect", q=4, qs=3)], "P26": [J(qs=4), J(mode="effect", qs=2)], "P27": [J(qs=2)],
    "P28": [J(qs=9)], "P29": [J(qs=4), J("asan", q=2)], "P30": [J(qs=4), J(mode="threads", q=2), J("tsan", mode="threads", q=2)],
    "P31": [J(cores=2, qs=5)], "P32": [J(qs=20)], "P33": [J(qs=20)], "P34": [J(qs=5)], "P35": [J(qs=12)],
    "P36": [J(q=4, qs=4), J(mode="long", q=4, qs=3)], "P37": [J(qs=4)],
}
COMMON = ["problems are finite, with up to a few hundred reachable states (long corridors: up to 120 steps), rewards of magnitude 1e-3 to 1e6",
          "user callbacks (environment, heuristic, prior) are thread-safe and deterministic functions of their arguments"]
SCHED = ["schedules are those produced by the kernel on this machine plus injected delays; not every interleaving is seen"]
STAT = ["statistical verdicts alarm beyond 6 sigma (7 for long sequences), so biases far below 1e-2 in a single rare class may be missed"]
CLOCK = ["time is the interposed clock: only readings through std::chrono system_clock and steady_clock are controlled"]
ASSUMPTIONS = {"*": COMMON,
               "P01": SCHED, "P02": SCHED + CLOCK, "P03": CLOCK, "P04": SCHED, "P05": SCHED + ["races are seen by happens-before analysis of the executions observed"],
               "P06": SCHED + ["only pthread mutexes are watched (std::mutex and its relatives)"], "P07": SCHED, "P11": SCHED, "P14": SCHED,
               "P15": STAT, "P16": STAT, "P18": STAT, "P28": STAT, "P29": STAT, "P36": STAT, "P32": CLOCK,
               "P27": ["'enough' is the budget used by the check (3000 trials or more) on problems with a clear gap between the best and the next action"]}
