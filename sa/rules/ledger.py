"""Symbolic ledger over the key-value store: reads and writes of records, with aliasing decided by the path condition."""
from .st import *
from .c09 import parts, kind, ident, strip_enc

TOMBS = ("checkpoint", "commit", "rollback", "rewind")


def keyof(k):
    """(kind, identifiers) of a storage key, or None."""
    ps = parts(k)
    if ps is None:
        return None
    ids = []
    for p in ps:
        if p[0] == "arg":
            i = ident(p[1])
            if i is None:
                return None
            ids.append(i[1])
    return kind(ps), tuple(ids)


def bare(t):
    """An identifier, stripped of the views through which it is compared."""
    while True:
        if t[0] == "fld" and t[2:] == (None, "0"):
            t = t[1]
        elif t[0] == "call" and len(t[2]) == 1 and t[1].split("::")[-1] in ("as_slice", "bytes", "as_ref", "to_vec", "clone", "to_string", "deref"):
            t = t[2][0]
        else:
            return t


def compared(st, a, b):
    """1 / 0 if this path assumes that two identifiers are equal / different, else None."""
    want = {bare(a), bare(b)}
    for t, v in st.pc.items():
        if v in (0, 1) and t[0] == "bin" and t[1] == "Eq" and {bare(t[2]), bare(t[3])} == want:
            return v
    return None


def differ(st, a, b):
    """Do the assumptions of this path make two identifiers different?"""
    return a != b and compared(st, a, b) == 0


def same(st, a, b):
    return bare(a) == bare(b) or compared(st, a, b) == 1


def apart(st, k1, k2):
    """Certainly different keys?"""
    if k1 is None or k2 is None:
        return False
    if k1[0] != k2[0]:
        return True
    return any(differ(st, a, b) for a, b in zip(k1[1], k2[1]))


class Ledger(Rule):
    """ghost: ((key, encoded value), ...) written so far. Reads answer ("call", "rec", (key, n)): n = number of writes so far that may be to the same key."""
    max_states = 60000
    max_depth = 40
    skip = ("svm_state::storage::", "svm_codec::", "wasmer::", "svm_hash::", "svm_layout::", "svm_types::template::section::", "svm_state::template_storage::TemplateStorage::sections")

    def __init__(self):
        self.rets, self.panics, self.unknown = [], [], []
        self.reads = 0

    def opaque(self, path, body):
        return path.startswith(self.skip) or path.endswith("::var_segments")

    def on_call(self, eng, st, path, targs, args, site):
        if path == GS + "query_layer_id":
            return [(NONE, st)]
        if path.startswith(SG) and "{" not in path:
            op = path[len(SG):]
            if op in ("get", "get_by_hash"):
                k = eng.snap(st, args[1])
                self.reads += 1
                w = st.ghost
                n = 0
                for i, (wk, wv) in enumerate(w):
                    if not apart(st, keyof(wk), keyof(k)):
                        n = i + 1
                if n and w[n - 1][0] == k:
                    return [(("call", "ready", (ok(some(w[n - 1][1])),), None), st)]
                v = ("call", "rec", (k, K(n)), None)
                there = ("call", "exists", (k,), None)
                out = []
                for b in (1, 0):
                    s = st.copy()
                    if eng.known(s, there) in (None, b) and eng.assume(s, there, b):
                        out.append((("call", "ready", (ok(some(v) if b else NONE),), None), s))
                return out
            if op in ("upsert", "upsert_by_hash"):
                s = st.copy()
                w = (eng.snap(st, args[1]), eng.snap(st, args[2]))
                if keyof(w[0]) is None or len(st.ghost) > 6:
                    w = (("sym", "some key"), ("sym", "some value"))     # a key that a loop makes up
                if w not in st.ghost:
                    s.ghost = st.ghost + (w,)
                s.event("upsert", where(site))
                return [(("call", "ready", (UNIT,), None), s)]
            if op in TOMBS:
                self.unknown.append((op, where(site)))
        if path.endswith("::decode_bytes"):
            v = eng.snap(st, args[0])
            if v[0] == "call" and v[1].endswith("encode_to_vec"):
                return [(ok(v[2][0]), st)]
            return [(("call", "decoded", (v,), None), st)]
        return None

    def on_return(self, eng, st, val):
        self.rets.append((eng.snap(st, val), st.ghost, dict(st.pc), st))

    def on_panic(self, eng, st, what, site):
        self.panics.append((what, st.ghost, where(site), st))
