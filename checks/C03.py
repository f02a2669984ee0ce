"""C03: the change feed reproduces the cache."""
import cachelib
TECHNIQUE = "TLA+ model checking (TLC) of the cache model with a feed consumer + replay of TLC histories and trace validation: a consumer specified in TLA+ replays the real feed"
NOTE = ("Invariant FeedReproduces checked exhaustively on the model; on the real cache the recorded feed is replayed by the TLA+ consumer "
        "after every call and compared with what queries return; callers' notifications (with shared prefixes) compared before/after.")


def check(ctx):
    b = ctx.build("cacheh")
    ctx.model("cache", "CacheMC", cfg="CacheMC" + ctx.n("", "T"))
    ctx.model("cache", "CacheMC", cfg="CacheTwo")
    if ctx.thorough:
        ctx.model("cache", "CacheMC", cfg="CacheMulti")
    ctx.refuted("cache", "CacheMC", "CacheBadQuiet")
    names = cachelib.replays(ctx, b, [("CacheGen", "gen", 0, False, 3500, 60000), ("CacheGenTwo", "gentwo", 0, True, 1500, 20000),
                                      ("CacheGenMulti", "genmulti", 0, False, 2000, 20000)])
    names += cachelib.randoms(ctx, b, "random", "two", 400, 6000)
    ctx.run(b, "TestScripted")
    names.append("scripted")
    ctx.validate("cache", "FeedTrace", names)
    cachelib.note(ctx, names)
    ctx.assumptions.append("one goroutine submits at a time (concurrent feeding is covered by C04 and C15)")
