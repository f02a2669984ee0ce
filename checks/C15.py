"""C15: metadata counters and latency statistics."""
import cachelib
TECHNIQUE = "TLA+ model checking (TLC) of the cache's counters + replay of TLC histories, trace validation of counters, exported metadata and latency windows, controlled schedules of refresh vs. stream, and race-detector runs"
NOTE = ("Counter invariants exhaustive on the model; real counters compared after every call; the refresh interleaved with the stream under bounded-"
        "preemption and random schedules, final state must be that of the stream; free runs under the race detector.")


def check(ctx):
    b = ctx.build("cacheh")
    v = ctx.build("cacheh", vsync=True)
    rb = ctx.build("cacheh", race=True)
    ctx.model("cache", "CacheMC", cfg="CacheMC" + ctx.n("", "T"))
    names = cachelib.replays(ctx, b, [("CacheGen", "gen", 0, False, 2500, 40000), ("CacheGenMulti", "genmulti", 0, False, 1200, 20000),
                                      ("CacheGenThr", "genthr", 2, False, 1200, 20000)])
    names += cachelib.randoms(ctx, b, "random", "two", 400, 6000)
    ctx.run(b, "TestScripted")
    names.append("scripted")
    ctx.run(b, "TestLatency")
    ctx.run(v, "TestConc")
    ctx.race_run(rb, "TestRaceRefresh", "MetaConcTrace")
    ctx.validate("cache", "MetaTrace", names)
    ctx.validate("cache", "LatTrace", ["lat"])
    ctx.validate("cache", "MetaConcTrace", ["conc"])
    cachelib.note(ctx, names + ["lat", "conc"])
    ctx.assumptions.append("one session at a time feeds a target; the latency of a window is that of the refresh intervals that end inside it")
