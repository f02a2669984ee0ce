"""Runs shared by the checks of the Subscribe server."""


def schedules(ctx, b, kind, quick, thorough, dfs=True):
    ctx.run(b, "TestSubs", env={"VERIF_MODE": kind, "VERIF_CASES": str(ctx.n(quick, thorough))})
    names = [kind]
    if dfs:
        ctx.run(b, "TestSubsDFS", env={"VERIF_MODE": kind})
        names.append(kind + "dfs")
    for x in names:
        ctx.cov[x] = ctx.stats(x)
    ctx.assumptions += ["one goroutine per target writes to the cache (as in the collector), the metadata refresh runs beside them",
                        "origins are given in the prefix or in a path whose prefix has no elements"]
    return names
