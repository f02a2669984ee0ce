"""C09: the path tree used from one goroutine."""
def check(ctx):
    b = ctx.build("ctreeh")
    # the algorithm implements the map, in every reachable tree of the bound
    ctx.model("pathtree", "PathTreeMC", cfg="PathTreeAlg" + ctx.n("", "T"))
    # one history per transition of the model's state graph, replayed
    p = ctx.histories("pathtree", "PathTreeMC", "PathTreeGen" + ctx.n("", "T"))
    ctx.run(b, "TestReplay", env={"VERIF_HIST": p})
    ctx.run(b, "TestRandom")
    ctx.validate("pathtree", "PathTreeTrace", ["replay", "random"])
    ctx.cov["replayed"] = ctx.stats("replay")
    ctx.cov["random"] = ctx.stats("random")
    ctx.assumptions += [
        "path elements are taken from an 8-element alphabet (including \"\", \"*\" and multi-byte names); the tree is parametric in them",
        "stored values are non-nil",
    ]


TECHNIQUE = "TLA+ model checking (TLC) of the tree algorithm + replay of TLC histories and trace validation of real executions"
NOTE = ("Design model exhaustive for paths up to length 2-3 over 2 elements; one real execution per transition of the model's "
        "state graph and random sequences over an 8-element alphabet, each step validated by TLC. Trusts TLC, the harness's "
        "projection of strings to ranks, and that larger alphabets behave alike.")
