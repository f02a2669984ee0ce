"""C05: ONCE and POLL."""
import sublib
TECHNIQUE = "TLA+ model checking (TLC) of the snapshot protocol + trace validation of schedule-controlled ONCE and POLL calls on the real server"
NOTE = ("Walk, writer, queue, close and poll triggers interleaved exhaustively in a small model; real ONCE/POLL calls with random paths, origins, "
        "wildcards and targets, against unchanging caches (exact) and with concurrent writers under controlled schedules, judged per round.")


def check(ctx):
    b = ctx.build("cacheh", vsync=True)
    ctx.model("subscribe", "Subscribe", cfg="SubOnce" + ctx.n("", "T"))
    ctx.model("subscribe", "Subscribe", cfg="SubPoll" + ctx.n("", "T"))
    ctx.refuted("subscribe", "Subscribe", "SubBadDrain")
    names = sublib.schedules(ctx, b, "once", 450, 9000)
    ctx.validate("subscribe", "SubTrace", names)
