"""C10: the path tree under concurrent use."""
TECHNIQUE = "TLA+ linearizability trace validation (TLC) of schedule-controlled executions; TLC model of the locking protocol; race-detector events"
NOTE = ("Every recorded concurrent history must be explained by the atomic-step specification. Schedules: preemption-bounded DFS for "
        "small fixed programs, random/PCT for random programs of 2-3 goroutines; race detector on free-running mixes of 2-8 "
        "goroutines. Schedule points are lock operations.")


def check(ctx):
    b = ctx.build("ctreeh", vsync=True)
    # the locking protocol, and what it would lose without each of its parts
    ctx.model("pathtree", "PathTreeLocks", cfg="Locks2")
    ctx.model("pathtree", "PathTreeLocks", cfg=ctx.n("Locks3S", "Locks3"))
    for x in ("NoRecheck", "NoKeep", "NoDel"):
        ctx.refuted("pathtree", "PathTreeLocks", "Locks" + x)
    rb = ctx.build("ctreeh", race=True)
    ctx.run(b, "TestConcurrent")
    ctx.validate("pathtree", "PathTreeConcTrace", ["conc"], nondet=True)
    ctx.race_run(rb, "TestRace", "PathTreeConcTrace")
    ctx.cov["concurrent"] = ctx.stats("conc")
    ctx.cov["race_rounds"] = ctx.stats("race").get("rounds", 0)
    ctx.assumptions += ["a goroutine's run between two lock operations is atomic in the schedule-controlled runs",
                        "leaf values are non-nil"]
