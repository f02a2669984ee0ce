"""C13: sessions of managed targets."""
TECHNIQUE = "TLA+ model checking (TLC) of the retry loop with its operations (safety and liveness) + replay of TLC histories and trace validation of controlled schedules in virtual time; race detector"
NOTE = ("Model exhaustive for one target and 12-40 environment steps, with liveness for an endless environment; recorded callbacks, dials, streams and "
        "operations of 1-3 targets with scripted failures, silence, forced reconnects and removals at arbitrary moments must be behaviours of the trace specification.")


def check(ctx):
    v = ctx.build("managerh", vsync=True)
    rb = ctx.build("managerh", race=True)
    ctx.model("manager", "Manager", cfg="ManagerMC" + ctx.n("", "T"))
    ctx.model("manager", "Manager", cfg="ManagerLive")
    for x in ("early", "noreset", "nowait", "stalesub", "deaf"):
        ctx.refuted("manager", "Manager", "ManagerBad_" + x)
    p = ctx.histories("manager", "Manager", "ManagerGen" + ctx.n("", "T"))
    ctx.run(v, "TestReplay", env={"VERIF_HIST": p})
    ctx.run(v, "TestConcurrent")
    ctx.run(v, "TestDFS")
    ctx.race_run(rb, "TestRace", "ManagerTrace")
    names = ["replay", "conc", "dfs"]
    ctx.validate("manager", "ManagerTrace", names, nondet=True)
    for x in names:
        ctx.cov[x] = ctx.stats(x)
    ctx.assumptions += ["callbacks do not call back into the manager", "connections and streams return once their context has ended, as gRPC's do",
                        "a stream whose request could not be sent may or may not be reset"]
