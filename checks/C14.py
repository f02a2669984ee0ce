"""C14: reset and removal."""
import cachelib
TECHNIQUE = "TLA+ model checking (TLC) of a multi-target cache model + replay of TLC histories and trace validation of content, feed, metadata and subscriptions"
NOTE = ("Isolation checked exhaustively on a two-target model; every generated history and long random histories on 2-3 targets replayed on the "
        "real cache, all targets' content and metadata compared after every call; streams of a real Subscribe server observed around resets and removals.")


def check(ctx):
    b = ctx.build("cacheh")
    ctx.model("cache", "CacheMC", cfg="CacheTwo")
    names = cachelib.replays(ctx, b, [("CacheGenTwo", "gentwo", 0, True, 2500, 40000)])
    names += cachelib.randoms(ctx, b, "random", "two", 500, 8000)
    ctx.run(b, "TestScripted")
    names.append("scripted")
    ctx.run(b, "TestStreams")
    ctx.validate("cache", "ResetTrace", names)
    ctx.validate("cache", "StreamTrace", ["streams"])
    cachelib.note(ctx, names + ["streams"])
