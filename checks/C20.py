"""C20: the synthetic target's generator."""
TECHNIQUE = ("TLA+ model checking (TLC) of the update queue and of the value arithmetic + replay of TLC configurations and trace validation of random ones "
             "on the real queue, on fake target sessions in virtual time and over gRPC")
NOTE = ("Queue model exhaustive for up to 3 values with all combinations of 3 initial timestamps, 3 delta ranges and 3 repeat counts; value arithmetic exhaustive in 4 bits. "
        "Real emissions are validated one by one in 64-bit arithmetic; generators are run twice (and taking turns) for reproducibility.")


def check(ctx):
    b = ctx.build("fakeh")
    ctx.model("fakeq", "FakeQueue", cfg="FakeQueueMC" + ctx.n("", "T"))
    ctx.model("fakeq", "RangeStep", cfg="RangeStepMC")
    for x in ("append", "front", "offbyone", "latest0", "nosort"):
        ctx.refuted("fakeq", "FakeQueue", "FakeQueueBad_" + x)
    for x in ("int63n", "noclamp", "clamplow"):
        ctx.refuted("fakeq", "RangeStep", "RangeStepBad_" + x)
    p = ctx.histories("fakeq", "FakeQueue", "FakeQueueGen")
    ctx.run(b, "TestModel", env={"VERIF_HIST": p})
    ctx.run(b, "TestRandom")
    ctx.run(b, "TestAgent")
    ctx.run(b, "TestServer")
    names = ["model", "random", "agent", "server"]
    ctx.validate("fakeq", "FakeTrace", names)
    for x in names:
        ctx.cov[x] = ctx.stats(x)
    ctx.assumptions += ["the configured initial value of a list is emitted first though it need not be an option",
                        "a configuration that contradicts itself (empty range or options, initial value outside the range, negative or inverted timestamp deltas), "
                        "or leaves no timestamp within the delta bounds, may be refused with an error", "doubles are finite",
                        "a custom generator is not one of this repository"]
