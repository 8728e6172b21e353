"""Shared exploration of the C interface."""
from ..eng import *
from ..codec import short
from ..models import W_CAUGHT
from .. import cg

CRATE = "svm_runtime_ffi"
RESULT = "svm_runtime_ffi::result::svm_result_t"
TRUSTED = ("core::", "alloc::", "std::", "hashbrown::", "log::", "tracing", "lazy_static::")


def exports(P):
    return sorted((b for b in P.bodies.values() if b.crate == CRATE and b.kind == "fn" and (b.export or '"C"' in str(b.abi))), key=lambda b: b.path)


def result_adt(P):
    """The C result type: what the exported functions return."""
    for b in exports(P):
        if b.sig and b.sig[1][0] == "adt" and b.sig[1][1].startswith(CRATE):
            return b.sig[1][1]
    return RESULT


def caught(st):
    return any(f.wrap is W_CAUGHT for f in st.frames)


def strip(t):
    """A pointer without casts and reborrows."""
    while isinstance(t, tuple) and t:
        if t[0] == "call" and t[1].split("::")[-1] in ("cast", "cast_mut", "cast_const", "as_ptr", "addr", "expose_provenance", "from_raw", "leak", "into_raw") and t[2]:
            t = t[2][0]
        elif t[0] == "cast":
            t = t[1] if isinstance(t[1], tuple) else t[2]
        else:
            break
    return t


def member(st, ptr):
    """The set operations that told, on this path, that the pointer is registered."""
    out = set()
    p = strip(ptr)
    for t, v in st.pc.items():
        if v == 1 and t[0] == "call" and t[1].split("::")[-1] in ("contains", "remove", "contains_key", "take", "get") and len(t[2]) > 1 and strip(t[2][1]) == p:
            out.add(t[1].split("::")[-1])
    return out


class FfiRule(Rule):
    max_states = 20000
    max_depth = 40

    def __init__(self, P):
        self.P = P

    def opaque(self, path, body):
        return body.crate != CRATE

    def on_call(self, eng, st, path, targs, args, site):
        if path + "::__stability" in self.P.bodies:
            return [(("sym", "static:" + path.split(" as ")[0].split("::")[-1]), st)]
        return None


def run(P, rule, body, ghost=None):
    e = Engine(P, rule)
    e.run(body, tuple(("param", i, g) for i, g in enumerate(body.gen)), [("sym", body.names.get(i + 1, "a%d" % i)) for i in range(body.argc)], ghost=ghost)
    return e
