"""C17: loads of target configurations."""
TECHNIQUE = "TLA+ model checking (TLC) of the loading algorithm + replay of TLC-enumerated load sequences and trace validation of handler calls; concurrent loads under controlled schedules and the race detector"
NOTE = ("Model exhaustive for two loads over 2 targets x 2 requests x 2 contents with every validity and revision order; on the real code every "
        "load's result, handler calls and Current() are judged by the trace specification, with full settings (addresses, credentials, meta, dialer).")


def check(ctx):
    b = ctx.build("configh", vsync=True)
    rb = ctx.build("configh", race=True)
    ctx.model("config", "ConfigMC")
    for x in ("Request", "Pointer", "Equal"):
        ctx.refuted("config", "ConfigMC", "ConfigBad" + x)
    p = ctx.histories("config", "ConfigMC", "ConfigGenT")
    ctx.run(b, "TestReplay", env={"VERIF_HIST": p})
    ctx.run(b, "TestRandom")
    ctx.run(b, "TestConcurrent")
    ctx.race_run(rb, "TestRace", "ConfigConcTrace")
    ctx.validate("config", "ConfigTrace", ["replay", "random"])
    ctx.validate("config", "ConfigConcTrace", ["conc"], nondet=True)
    for x in ("replay", "random", "conc"):
        ctx.cov[x] = ctx.stats(x)
    ctx.assumptions += ["a configuration is not modified by the caller after it was loaded", "no request of a configuration is a nil pointer",
                        "handlers do not call back into the configuration"]
