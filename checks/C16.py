"""C16: shared, reference-counted connections."""
TECHNIQUE = "TLA+ model checking (TLC) of the reference-counting protocol + replay of TLC histories and trace validation of controlled schedules (random, PCT, bounded-preemption DFS) of the real manager; race detector"
NOTE = ("Model exhaustive for 3 callers, 2 addresses, 4-6 requests with liveness; recorded executions with scripted dials (success, failure, "
        "cancellation, unknown dialer) must be behaviours of the trace specification; closing is observed as the state of the real ClientConn.")


def check(ctx):
    v = ctx.build("connh", vsync=True)
    rb = ctx.build("connh", race=True)
    ctx.model("connection", "Conn", cfg="ConnMC" + ctx.n("", "T"))
    ctx.model("connection", "Conn", cfg="ConnLive")
    for x in ("lateref", "keepfailed", "keeptab", "noonce"):
        ctx.refuted("connection", "Conn", "ConnBad_" + x)
    p = ctx.histories("connection", "Conn", "ConnGen" + ctx.n("", "T"))
    ctx.run(v, "TestReplay", env={"VERIF_HIST": p})
    ctx.run(v, "TestConcurrent")
    ctx.run(v, "TestDFS")
    ctx.race_run(rb, "TestRace", "ConnTrace")
    names = ["replay", "conc", "dfs"]
    ctx.validate("connection", "ConnTrace", names, nondet=True)
    for x in names:
        ctx.cov[x] = ctx.stats(x)
    ctx.assumptions += ["a request whose context is cancelled while it waits for a dial started by another one keeps waiting (as documented)",
                        "a second close of a ClientConn is not observable; closing once is checked on the model and through the state"]
