"""C03: storage access permissions of guest code."""
from ..eng import *
from .rt import *

RULE = ("typestate of the access mode: `svm_alloc` and everything run by `verify` run with AccessDenied, the called function and constructors with FullAccess; "
        "no host function reaches the key-value store in AccessDenied, nor one of its mutating operations below FullAccess, nor changes the mode")
EXPLAIN = ("Dataflow from Runtime::{call,verify,spawn} to each invocation of guest code with the mode the environment is in; then from each host function "
           "registered for the guest, once per access mode, to each operation of the key-value store. All paths; no execution.")
FLOORS = {"guest_calls": 3, "host_functions": 10, "host_runs": 30}
ASSUME = ["the guest reaches the host only through the registered imports", "library functions behave as documented"]


class Host(Rule):
    max_states = 60000
    max_depth = 40

    def __init__(self, P, skip):
        self.P = P
        self.skip = skip
        self.ops = {}
        self.modes = set()

    def opaque(self, path, body):
        return path.startswith(self.skip)

    def on_call(self, eng, st, path, targs, args, site):
        if path.startswith(STORAGE) and "{" not in path:
            self.ops.setdefault(path, " <- ".join(f.body.path.split("::")[-1] for f in st.frames[::-1] if "{" not in f.body.path)[:200] + " at " + where(site))
        return None

    def on_return(self, eng, st, val):
        for a in aggs(st.store.get(HENV, UNIT), INNER, []):
            self.modes.add(a[3][fields(self.P, INNER[1]).index("mode")])


def check(ctx):
    P = ctx.P
    names = [v[0] for v in P.variants(MODE)]
    res = guests_of(P, cls=HostFns)
    hosts = {}
    for ent, (r, e) in res.items():
        ctx.inc("abstract_states", e.stats["states"])
        hosts.update(r.hosts)
        if not r.guests:
            ctx.undecided.append("no guest call is reached from Runtime::" + ent)
        for g in r.guests:
            ctx.inc("guest_calls")
            nm = g["name"]
            fn = nm[1] if nm and nm[0] == "str" else None
            want = "AccessDenied" if ent == "verify" or fn == "svm_alloc" else "FullAccess"
            label = fn or ("the called function" if ent == "call" else "the constructor" if ent == "spawn" else short(nm or UNIT, 60))
            if g["mode"] != {want}:
                ctx.violation("C03:%s:%s" % (ent, label), "Runtime::%s runs %s with access mode %s instead of %s (at %s)"
                              % (ent, label, "/".join(sorted(g["mode"])) or "unknown", want, g["where"]))
            ctx.sample("Runtime::%s runs %s in %s" % (ent, label, want))
    for path, (body, targs, envs, nms) in sorted(hosts.items()):
        ctx.inc("host_functions")
        label = "/".join(sorted(nms)) or path.split("::")[-1]
        if body is None:
            ctx.violation("C03:host:" + label, "host function %s has no analysable body" % label)
            continue
        for m, mn in enumerate(names):
            full = mn == "FullAccess"
            r = Host(P, ("wasmer::", "svm_codec::", "svm_state::") if full else ("wasmer::", "svm_codec::", "svm_state::storage::"))
            try:
                e = run_host(P, r, body, targs, m)
            except Budget as b:
                ctx.undecided.append("%s in %s: %s" % (label, mn, b))
                continue
            ctx.inc("host_runs")
            ctx.inc("abstract_states", e.stats["states"])
            for op, at in r.ops.items():
                ctx.inc("store_operations")
                if mn == "AccessDenied" or (not full and is_write(P, op)):
                    ctx.violation("C03:host:%s:%s:%s" % (label, mn, op.split("::")[-1]), "host function %s reaches Storage::%s in mode %s (%s)" % (label, op.split("::")[-1], mn, at))
            for x in r.modes:
                if x != ("agg", ("adt", MODE), m, ()):
                    ctx.violation("C03:host:%s:mode" % label, "host function %s entered in mode %s leaves it as %s (%s)" % (label, mn, short(x, 60), body.span))
