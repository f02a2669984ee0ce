"""C06: the streaming filter."""
TECHNIQUE = "TLA+ model checking (TLC) of the filter's trie + replay of TLC histories and trace validation of the filter, the Subscribe server and concurrent schedules"
NOTE = ("Design model exhaustive for paths up to length 2-3 over {a,b,*} and 3-4 registrations; real executions validated step by "
        "step, including whole Subscribe streams (prefixes, origins, keys, deprecated elements). End of registration is observed "
        "through reachability of the subscription's ACL object after garbage collection.")


def check(ctx):
    b = ctx.build("matchh", vsync=True)
    ctx.model("match", "MatchMC", cfg="MatchMC" + ctx.n("", "T"))
    ctx.refuted("match", "MatchMC", "MatchBroken")
    p = ctx.histories("match", "MatchMC", "MatchGen" + ctx.n("", "T"))
    ctx.run(b, "TestReplay", env={"VERIF_HIST": p})
    ctx.run(b, "TestRandom")
    ctx.run(b, "TestServer")
    ctx.run(b, "TestConcurrent")
    ctx.validate("match", "MatchTrace", ["replay", "random", "server"])
    ctx.validate("match", "MatchConcTrace", ["conc"])
    for x in ("replay", "random", "server", "conc"):
        ctx.cov[x] = ctx.stats(x)
    ctx.assumptions += ["a client registers a given query path at most once at a time (removal is by client and path)",
                        "origins of notifications are in the prefix"]
