"""Which monitors decide which property."""
MONITORS = {}
def P(pid, *mons, **kw):
    MONITORS[pid] = dict(monitors=list(mons), **kw)
def M(harness, variant="asan-rgb", **kw):
    return dict(harness=harness, variant=variant, **kw)

P("C12", M("c12"))
P("C07", M("c07"))
P("C11", M("c11"))
P("C08", M("c08"))
P("C09", M("c09"))
P("C10", M("c10"))
P("C13", M("c13"))
P("C14", M("c14"))
P("C04", M("c04"))
P("C05", M("c05"))
P("C06", M("c06"))
P("C01", M("c01"))
P("C03", M("c03"))
P("C15", M("c15", "opt-rgb"), M("c15", "opt-spectral"))
P("C16", M("c16", "opt-rgb"), M("c16", "opt-spectral"))
P("C17", M("c17", "opt-rgb"), M("c17", "opt-spectral"))
P("C18", M("c18", "opt-rgb"), M("c18", "opt-spectral"))
P("C19", M("c19", "opt-rgb"), M("c19", "opt-spectral"))
P("C20", M("c20", "asan-rgb"))
P("C21", M("c21", "asan-rgb"))
P("C22", M("c22", "asan-rgb", libs="-lz"))
P("C23", M("c23", "asan-rgb", libs="-lz"))
P("C24", M("c24", "asan-rgb", libs="-lz"), M("c24", "opt-rgb", libs="-lz"))
P("C25", M("c25"), M("c25", "asan-rgb-tests"))
P("C28", M("c28"))
P("C27", M("c27"), M("c27", "asan-spectral"))
P("C26", M("c26"), M("c26", "opt-rgb"))
P("C29", M("c29", "asan-rgb", libs="-lz"))
P("C31", M("c31", "asan-rgb"))
P("C32", M("c32", "asan-rgb"))
P("C33", M("c33", "asan-rgb"))
P("C34", M("c34", "asan-rgb"))
P("C02", M("c02", "tsan-rgb"), M("c01", "tsan-rgb", light=True))
P("C30", M("c30", "asan-rgb", libs="-lz"))
# in the thorough tier of C35 the slow ones, which are explored at length under the other properties, stay at the depth of the quick tier
P("C35", *([M(h, "fast-rgb") for h in ("c07", "c08", "c09", "c10", "c11", "c14", "c21", "c25", "c31", "c33")] +
           [M(h, "fast-rgb", light=True) for h in ("c01", "c18", "c26", "c27", "c30")]))
NOT_CLAIMED = {}
