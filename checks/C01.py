"""C01: the collector relays the state of its targets."""
import os

TECHNIQUE = ("TLA+ model checking (TLC) of the pipeline from target to view and of where notifications are put + replay of TLC histories and trace validation "
             "of random ones on the real collector and CLI processes between scripted targets, the repository's fake target and client-library caches")
NOTE = ("Pipeline model exhaustive for 3 notifications over 2 leaves with one lost session, one stream and one poll subscriber; placement exhaustive for 3 origins. "
        "Real runs: many targets per collector process, every view compared with the fold of what the target streamed.")


def check(ctx):
    b = ctx.build("pipeh")
    env = {"VERIF_COLLECTOR": ctx.gobuild("./cmd/gnmi_collector", os.path.join(ctx.out, "gnmi_collector")),
           "VERIF_CLI": ctx.gobuild("./cmd/gnmi_cli", os.path.join(ctx.out, "gnmi_cli"))}
    ctx.model("pipeline", "Pipeline", cfg="PipelineMC" + ctx.n("", "T"))
    ctx.model("pipeline", "Pipeline", cfg="PipelineLive")
    ctx.model("pipeline", "Stamp", cfg="StampMC")
    for x in ("unregistered", "copy", "nodelfeed", "deleteall", "noreset", "walkfirst", "pollkeep"):
        ctx.refuted("pipeline", "Pipeline", "PipelineBad_" + x)
    for x in ("drop", "target"):
        ctx.refuted("pipeline", "Stamp", "StampBad_" + x)
    p = ctx.histories("pipeline", "PipeGen", "PipeGen")
    ctx.run(b, "TestModel", env={"VERIF_HIST": p, **env})
    ctx.run(b, "TestRandom", env=env)
    ctx.run(b, "TestFake", env=env)
    names = ["model", "random", "fake"]
    ctx.validate("pipeline", "PipeTrace", names)
    for x in names:
        ctx.cov[x] = ctx.stats(x)
    ctx.assumptions += ["a target's timestamps increase within a session; a new session starts from nothing",
                        "the leaves of an atomic group stay the same, and the group is deleted as a whole"]
