"""C04: STREAM subscribers converge to the cache."""
import sublib
TECHNIQUE = "TLA+ model checking (TLC) of the subscribe/cache interleavings + trace validation of schedule-controlled executions of the real server"
NOTE = ("Registration, tree write, announcement, walk, queueing and sending interleaved exhaustively in a small model (broken variants refuted); the real "
        "Server and Cache run one goroutine at a time under seeded random, PCT and bounded DFS schedules at every lock operation, every message judged by the specification.")


def check(ctx):
    b = ctx.build("cacheh", vsync=True)
    ctx.model("subscribe", "Subscribe", cfg="SubStream" + ctx.n("", "T"))
    ctx.model("subscribe", "Subscribe", cfg="SubUpdates")
    for c in ("Reg", "Tell", "Visit", "Live"):
        ctx.refuted("subscribe", "Subscribe", "SubBad" + c)
    names = sublib.schedules(ctx, b, "stream", 500, 9000)
    ctx.validate("subscribe", "SubTrace", names)
