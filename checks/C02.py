"""C02: timestamp discipline of the cache."""
import cachelib
TECHNIQUE = "TLA+ model checking (TLC) of the cache model + replay of all TLC histories and trace validation of random histories against the model"
NOTE = ("Model exhaustive for one target, 6 paths of length up to 2, 2-3 timestamps and values, 4-5 operations (incl. atomic, multi, "
        "threshold variants); every generated history replayed on the real cache, content and result compared after every call.")


def check(ctx):
    b = ctx.build("cacheh")
    ctx.model("cache", "CacheMC", cfg="CacheMC" + ctx.n("", "T"))
    ctx.model("cache", "CacheMC", cfg="CacheThr")
    ctx.refuted("cache", "CacheMC", "CacheBadDelete")
    ctx.refuted("cache", "CacheMC", "CacheBadFuture")
    names = cachelib.replays(ctx, b, [("CacheGen", "gen", 0, False, 4000, 60000), ("CacheGenThr", "genthr", 2, False, 2500, 20000),
                                      ("CacheGenMulti", "genmulti", 0, False, 2000, 20000)])
    names += cachelib.randoms(ctx, b, "random", "one", 400, 6000)
    ctx.run(b, "TestScripted")
    names.append("scripted")
    ctx.validate("cache", "CacheTrace", names)
    cachelib.note(ctx, names)
