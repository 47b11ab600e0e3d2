"""What each check runs: design models (config per tier, workers) and random profiles (cases per tier)."""
COMMON = [
    "the harness records the calls and their results faithfully (it reads results only through the public API)",
    "TLC and the CommunityModules evaluate the specification correctly",
]


def M(name, quick, thorough=None, workers=1):
    """A model: config per tier (None: not in that tier)."""
    return (name, (quick, thorough or quick), workers)


def P(profile, quick, thorough, models=(), extra=(), **kw):
    return dict(random=[(profile, (quick, thorough))] + list(extra), models=list(models), assumes=COMMON, **kw)


DESIGN_W = M("McWriter", "design", workers=4)
DESIGN_R = M("McReader", "design", "every", workers=4)
DESIGN_F = M("McFormat", "design", workers=4)
LARGE_W = M("McLarge", "write", "writeall")
LARGE_R = M("McLarge", "read", "readall")

PLAN = {
    "C01": P("session", 800, 20000, [M("McWriter", "gen", "four"), DESIGN_W, LARGE_W]),
    "C02": P("reopen", 1000, 20000, [M("McWriter", "reopen"), M("McWriter", "append", "appendall"), LARGE_W]),
    "C03": P("wellformed", 700, 20000, [M("McWriter", "bytes"), DESIGN_W, M("McLarge", "bytes")]),
    "C04": P("slice", 500, 20000, [M("McReader", "single"), M("McReader", "aheadsingle"), M("McReader", "manysingle"), DESIGN_R, LARGE_R]),
    "C05": P("multi", 500, 20000, [M("McReader", "multi"), M("McReader", "aheadmulti"), M("McReader", "again"), M("McReader", "manymulti"), DESIGN_R, LARGE_R]),
    "C06": P("foreign", 600, 8000, [M("McFormat", "gen", "genall"), DESIGN_F, M("McLarge", "foreign")]),
    "C07": P("props", 1000, 20000, [M("McWriter", "props"), M("McLarge", "text"), M("McConv", "gen")]),
    "C08": P("names", 1000, 20000, [M("McPaths", "names"), M("McNames", "gen", "genall"), M("McNames", "design", workers=4), M("McLarge", "names")]),
    "C09": P("paths", 1000, 20000, [M("McPaths", "text", "textall"), M("McPaths", "names")]),
    "C10": P("types", 1000, 20000, [M("McTypes", "mixed"), M("McTypes", "write"), M("McTypes", "bits")]),
    "C11": P("compat", 1000, 20000, [M("McTypes", "change"), M("McTypes", "both")]),
    "C12": P("fuzz", 1200, 20000, [M("McBounds", "design", "every", workers=4), M("McFields", "gen")]),
    "C13": P("malformed", 1200, 20000, [M("McMalformed", "gen", workers=4)]),
    "C14": P("cut", 400, 20000, [M("McCrash", "gen", "genall"), M("McCrash", "design", "every", workers=4)]),
    "C15": P("append", 800, 20000, [M("McWriter", "sync"), M("McStream", "design", workers=4)]),
    "C16": P("refuse", 1000, 20000, [M("McWriter", "refuse")]),
    "C17": P("faults", 600, 12000, [M("McStream", "design", workers=4), M("McFaults", "read"), M("McFaults", "write"), M("McFaults", "edge")]),
    "C18": P("frugal", 400, 8000, [M("McReader", "far")]),
}
