"""C19: path indexing and value conversion."""
TECHNIQUE = ("TLA+ model checking (TLC) of indexing over maps, of prefix/path joining, of the query text codec and of value equality + replay of TLC-generated "
             "cases and trace validation of random ones on the real functions, through the client and over the wire")
NOTE = ("Models exhaustive over small alphabets (3 key names in every iteration order, all prefix/path origin combinations, queries over 8 characters, 65x65 values); "
        "the real functions' results are judged by the trace specification, which orders key names itself. Key maps are rebuilt in many insertion orders, cloned and sent over the wire.")


def check(ctx):
    b = ctx.build("codech")
    rb = ctx.build("codech", race=True)
    ctx.model("codec", "PathIndexMC")
    ctx.model("codec", "JoinMC")
    ctx.model("codec", "QueryCodecMC", cfg="QueryCodecMC")
    if ctx.tier == "thorough":
        ctx.model("codec", "QueryCodecMC", cfg="QueryCodecMCT")
    ctx.model("codec", "ValuesMC")
    ctx.model("codec", "ScalarsMC")
    for m, c in ([("PathIndexMC", "PathIndexBad_" + x) for x in ("unsorted", "byvalue", "single", "dropkeys")] +
                 [("JoinMC", "JoinBad_" + x) for x in ("both", "pathorigin", "late")] +
                 [("QueryCodecMC", "QueryCodecBad_" + x) for x in ("text", "raw")] +
                 [("ValuesMC", "ValuesBad_" + x) for x in ("numeric", "default", "text", "digits", "prefix", "zip")] +
                 [("ScalarsMC", "ScalarsBad_" + x) for x in ("viaint", "narrow", "unsigned")]):
        ctx.refuted("codec", m, c)
    t = ctx.n("", "T")
    env = {"VERIF_HIST_JOIN": ctx.histories("codec", "JoinMC", "JoinGen" + t),
           "VERIF_HIST_QUERY": ctx.histories("codec", "QueryCodecMC", "QueryGen" + t),
           "VERIF_HIST_VALUES": ctx.histories("codec", "ValuesMC", "ValuesGen")}
    ctx.run(b, "TestModel", env=env)
    ctx.run(b, "TestRandom")
    ctx.race_run(rb, "TestRace", "CodecTrace")
    ctx.validate("codec", "CodecTrace", ["model", "random"])
    for x in ("model", "random"):
        ctx.cov[x] = ctx.stats(x)
    ctx.assumptions += ["a plain query element is not empty and has no '[' or ']'", "strings are valid UTF-8 (protobuf cannot carry others)",
                        "0 and -0 are the same value, as are decimals of the same number", "integers stay signed or unsigned in conversions"]
