"""Shared exploration of the state layer."""
from ..eng import *
from ..codec import short
from .. import cg

AS = "svm_state::account_storage::AccountStorage::"
TS = "svm_state::template_storage::TemplateStorage::"
GS = "svm_state::global_state::GlobalState::"
SG = "svm_state::storage::Storage::"


class Eval(Rule):
    def __init__(self):
        self.rets = []

    def opaque(self, path, body):
        return True

    def on_return(self, eng, st, val):
        self.rets.append(val if val[0] == "agg" and all(x[0] != "ref" or x[1][0] == "obj" for x in val[3]) else eng.snap(st, val))


def params(body):
    return [("sym", body.names.get(i + 1, "a%d" % i)) for i in range(body.argc)]


ROLES = {"Address": "address", "TemplateAddr": "template_addr", "String": "name", "u64": "balance", "u128": "counter", "GlobalState": "gs",
         "AccountStorage": "self", "TemplateStorage": "self", "Storage": "self", "u32": "var_id"}


def tyname(t):
    while t[0] in ("ref", "ptr"):
        t = t[1]
    return t[1].split("::")[-1] if t[0] in ("adt", "p") else t[0]


def roles(body):
    """Parameter symbols named by what they are (their type), so that renaming a parameter changes nothing."""
    out, seen = [], {}
    for i in range(body.argc):
        n = ROLES.get(tyname(body.locals[i + 1]), tyname(body.locals[i + 1]))
        seen[n] = seen.get(n, 0) + 1
        out.append(("sym", n if seen[n] == 1 else "%s%d" % (n, seen[n])))
    return out


def run_fn(P, rule, path, ghost=None, store=None, args=None):
    """Explore a function; for an async one, the coroutine it makes."""
    b = P.bodies[path]
    targs = tuple(("param", i, g) for i, g in enumerate(b.gen))
    args = args if args is not None else params(b)
    ev = Eval()
    e0 = Engine(P, ev)
    e0.run(b, targs, args, store=store)
    if len(ev.rets) == 1 and ev.rets[0][0] == "agg" and ev.rets[0][1][0] == "coroutine":
        v = ev.rets[0]
        cb, rt, rp = P.resolve(v[1][1], v[1][2])
        e = Engine(P, rule)
        e.run(P.bodies[v[1][1]], v[1][2], [v], ghost=ghost, store=store)
        return e
    e = Engine(P, rule)
    e.run(b, targs, args, ghost=ghost, store=store)
    return e
