"""C07: access control."""
import sublib
TECHNIQUE = "TLA+ model checking (TLC) of the filtered sender + trace validation of schedule-controlled subscriptions under random access tables"
NOTE = ("Sender filter checked in the model (a walk-only filter is refuted); real subscriptions of every mode with random per-call access tables and "
        "failing authorisation, concurrent writers, resets and removals: no response of a denied target, everything of the others, status codes.")


def check(ctx):
    b = ctx.build("cacheh", vsync=True)
    ctx.model("subscribe", "Subscribe", cfg="SubAcl")
    ctx.model("subscribe", "Subscribe", cfg="SubAclOnce")
    ctx.refuted("subscribe", "Subscribe", "SubBadFilter")
    names = sublib.schedules(ctx, b, "acl", 400, 8000)
    ctx.validate("subscribe", "SubTrace", names)
