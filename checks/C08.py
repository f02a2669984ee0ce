"""C08: stalled subscribers."""
TECHNIQUE = "TLA+ model checking (TLC) of writers, coalescing queues and blocked senders + trace validation of stall scenarios on the real server under fake time"
NOTE = ("A writer and two subscriptions whose sends may block forever, exhaustively in a small model (never-waits, backlog, duplicate accounting; "
        "bounded queue and no coalescing refuted); real server with blocked, slow and healthy streams under fake time: returns of the cache calls, backlog, "
        "duplicates, newest values and timeouts judged after every action.")


def check(ctx):
    b = ctx.build("cacheh", vsync=True)
    ctx.model("subscribe", "Subscribe", cfg="SubStall" + ctx.n("", "T"))
    ctx.refuted("subscribe", "Subscribe", "SubBadCoalesce")
    ctx.refuted("subscribe", "Subscribe", "SubBadBounded")
    ctx.run(b, "TestStalls")
    ctx.validate("subscribe", "StallTrace", ["stalls"])
    ctx.cov["stalls"] = ctx.stats("stalls")
    ctx.assumptions += ["sends are those of an in-memory stream; gRPC's own flow control is not part of the check"]
