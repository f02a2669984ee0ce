"""C11: the coalescing queue."""
TECHNIQUE = "TLA+ model of the queue's steps (safety and liveness by TLC) + linearizability trace validation of TLC-enumerated and schedule-controlled executions"
NOTE = ("Model: 2-3 producers, one consumer, up to 4-5 insertions, all interleavings, wake-up liveness under fairness. Code: every "
        "sequential history of the bound replayed; concurrent histories under DFS/random/PCT schedules (schedule points: lock "
        "operations and calls), each validated by TLC; free runs under the race detector.")


def check(ctx):
    b = ctx.build("coalesceh", vsync=True)
    rb = ctx.build("coalesceh", race=True)
    ctx.model("coalesce", "CoalesceMC", cfg=ctx.n("CoalesceMC", "CoalesceMCT"))
    ctx.model("coalesce", "CoalesceMC", cfg="CoalesceLive")
    for x in ("CoalesceTokenFirst", "CoalesceNoDrain"):
        ctx.refuted("coalesce", "CoalesceMC", x)
    p = ctx.histories("coalesce", "CoalesceGen", "CoalesceGen" + ctx.n("5", "7"))
    ctx.run(b, "TestReplay", env={"VERIF_HIST": p})
    ctx.run(b, "TestConcurrent")
    ctx.validate("coalesce", "CoalesceTrace", ["replay", "conc"], nondet=True)
    ctx.race_run(rb, "TestRace", "CoalesceTrace")
    for n in ("replay", "conc", "race"):
        ctx.cov[n] = ctx.stats(n)
    ctx.assumptions += ["one consumer, as the server uses the queue",
                        "a goroutine's run between two lock operations is atomic in the schedule-controlled runs"]
