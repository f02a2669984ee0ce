"""C18: Subscribe and Close of the client library."""
TECHNIQUE = "TLA+ model checking (TLC) of the Subscribe/Close protocol with liveness + replay of TLC histories and trace validation of controlled schedules (random, PCT, bounded-preemption DFS) of the real clients on fake time; race detector"
NOTE = ("Model exhaustive for 2-3 closers, 4-7 attempts and a cancelled context; recorded executions of ReconnectClient, BaseClient and CacheClient over the real gNMI "
        "client, the repository's fake and scripted implementations, with closing times placed on the moments of the script, are judged by the trace specification.")


def check(ctx):
    v = ctx.build("clienth", vsync=True)
    rb = ctx.build("clienth", race=True)
    ctx.model("client", "Client", cfg="ClientMC" + ctx.n("", "T"))
    ctx.model("client", "Client", cfg="ClientBase")
    for x in ("nolatch", "noctx", "nowait", "nocheck"):
        ctx.refuted("client", "Client", "ClientBad_" + x)
    p = ctx.histories("client", "Client", "ClientGen" + ctx.n("", "T"))
    ctx.run(v, "TestReplay", env={"VERIF_HIST": p})
    ctx.run(v, "TestTimed")
    ctx.run(v, "TestDFS")
    ctx.race_run(rb, "TestRace", "ClientTrace")
    names = ["replay", "timed", "dfs"]
    ctx.validate("client", "ClientTrace", names)
    for x in names:
        ctx.cov[x] = ctx.stats(x)
    ctx.assumptions += ["an implementation gives up connecting and receiving when its context is done",
                        "Close is not called from within a callback of the client it closes (Close waits for Subscribe)",
                        "a Close that answers ErrClientInit has not closed a BaseClient"]
