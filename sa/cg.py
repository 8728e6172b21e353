"""Call graph over function, closure and coroutine mentions (over-approximate)."""


def _mentions(P, body):
    out = set()

    def ty(t):
        if not isinstance(t, tuple):
            return
        if t and t[0] in ("fn", "closure", "coroutine") and len(t) > 1 and isinstance(t[1], str):
            b, rt, rp = P.resolve(t[1], t[2] if len(t) > 2 and isinstance(t[2], tuple) else ())
            out.add(rp)
            if b is None and t[1] in P.trait_items:
                tr, nm, _ = P.trait_items[t[1]]
                for im in P.impls.get(tr, ()):
                    if nm in im["items"]:
                        out.add(im["items"][nm][1])
        for x in t:
            if isinstance(x, tuple):
                ty(x)
    for st, t, sp, cl in body.blocks:
        for s in st:
            ty(s)
        ty(t)
    for l in body.locals:
        if l and l[0] in ("closure", "coroutine"):
            ty(l)
    for p in body.promoted or ():
        out |= _mentions(P, p)
    return out


def graph(P):
    g = getattr(P, "_cg", None)
    if g is None:
        g = {p: _mentions(P, b) for p, b in P.bodies.items()}
        P._cg = g
    return g


def reach(P, root):
    """Paths reachable from a function."""
    g = graph(P)
    seen, work = set(), [root]
    while work:
        x = work.pop()
        if x in seen:
            continue
        seen.add(x)
        work += g.get(x, ())
    return seen
