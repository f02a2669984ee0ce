"""Runs shared by the checks of the cache component."""


def replays(ctx, b, gens):
    """gens: (cfg stem, trace name, threshold, two targets, quick max, thorough max)"""
    names = []
    for stem, name, thr, two, qmax, tmax in gens:
        h = ctx.histories("cache", "CacheMC", stem + ctx.n("", "T"))
        env = {"VERIF_HIST": h, "VERIF_NAME": name, "VERIF_THR": str(thr), "VERIF_MAX": str(ctx.n(qmax, tmax))}
        if two:
            env["VERIF_TWO"] = "1"
        ctx.run(b, "TestReplay", env=env)
        names.append(name)
    return names


def randoms(ctx, b, name, mode, quick, thorough):
    ctx.run(b, "TestRandom", env={"VERIF_NAME": name, "VERIF_MODE": mode, "VERIF_CASES": str(ctx.n(quick, thorough))})
    return [name]


def note(ctx, names):
    for x in names:
        ctx.cov[x] = ctx.stats(x)
    ctx.assumptions += ["targets do not write below meta/ themselves (covered by C12 for robustness only)",
                        "an existing target is not added again",
                        "element names and origins are not empty and not the literal wildcard"]
