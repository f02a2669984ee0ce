"""C12: messages of remote peers."""
TECHNIQUE = ("TLA+ model checking (TLC) of the partial operations a message meets and of the guards before them + replay of TLC histories and trace validation "
             "of arbitrary well-formed messages on the real cache, Subscribe handler, client library and CLI")
NOTE = ("Model exhaustive for sequences of 3 messages over short paths, 3 value kinds and 2 timestamps. "
        "Arbitrary messages: structured generation, and mutated wire bytes that still parse.")

GUARDS = ("branch", "displayroot", "emptypath", "emptytree", "metaroot", "metatype", "nilvalue", "nopath", "rootdelete")


def check(ctx):
    b = ctx.build("remoteh")
    ctx.model("remote", "RemoteMC", cfg="RemoteMC" + ctx.n("", "T"))
    for g in GUARDS:
        ctx.refuted("remote", "RemoteMC", "RemoteBad_" + g)
    p = ctx.histories("remote", "RemoteMC", "RemoteGen")
    ctx.run(b, "TestModel", env={"VERIF_HIST": p})
    for x in ("Cache", "Subscribe", "Client"):
        ctx.run(b, "Test" + x)
    names = ["model", "cache", "subscribe", "client"]
    ctx.validate("remote", "RemoteTrace", names)
    for x in names:
        ctx.cov[x] = ctx.stats(x)
    ctx.assumptions += ["a message of several updates and deletes may be rejected in part", "the metadata that a message may change is that which it addresses"]
