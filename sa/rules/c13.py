"""C13: the state fingerprint is the XOR of the hashes of all current (key, value) pairs."""
from .db import *
from .c11 import says
from .c12 import okv, iserr, fingerprint_of

RULE = ("checkpoint combines into the pending fingerprint, for each unsaved change exactly once, the hash of the pair it adds and, if the key had a value before, the hash of that old pair; "
        "commit stores and reports the previous layer's fingerprint combined with the pending one, which starts again at zero; the hash of a pair covers its whole key and whole value; two fingerprints are combined by XOR of every byte")
EXPLAIN = ("Symbolic sums over GF(2): fingerprints are sets of terms, combining toggles membership; the contribution of one loop item is compared with the rule on every path through the loop body. "
           "The byte-wise combination itself is judged on the intermediate code. No execution.")
FLOORS = {"items": 3, "combinations": 1, "sums": 2}
ASSUME = ["the hash function (Blake3) does not collide", "database reads answer as C11 requires"]
ITEM = ("item", ("sym", "dirty"))


def pair(t):
    """(key, value) of a hashed pair, or None."""
    while t[0] == "agg" and t[1] == ("adt", STATE) and len(t[3]) == 1 or t[0] == "fld" and t[2:] == (None, "0") and t[1][0] == "agg":
        t = t[3][0] if t[0] == "agg" else t[1]
    if t[0] == "call" and t[1] == "digest":
        return tuple(t[2])
    return None


class Sum(Db):
    """item: None | ("open", toggled contributions, inserted?) | "end"."""

    def __init__(self, P, schema, saved):
        super().__init__(P, schema)
        self.items, self.saved, self.early = [], saved, []

    def contributes(self, eng, st, ts, site):
        mine = {t for t in ts if any(x == ITEM for x in subterms(t))}
        if mine and isinstance(st.ghost[1], tuple):
            o = st.ghost[1]
            st.ghost = (st.ghost[0], (o[0], o[1] ^ frozenset(mine), o[2]))
            return (ts - mine) | set()
        return ts

    def on_map(self, eng, st, op, path, args, site):
        if op == "insert" and path == self.saved and isinstance(st.ghost[1], tuple):
            o = st.ghost[1]
            st.ghost = (st.ghost[0], (o[0], o[1], True))

    def on_call(self, eng, st, path, targs, args, site):
        if path.split("::")[-1] == "get" and "HashMap" in path and args and args[0][0] == "ref" and isinstance(st.ghost[1], tuple) and st.ghost[1][2] and names(eng, st, args[0]) == self.saved:
            self.early.append(where(site))
        return super().on_call(eng, st, path, targs, args, site)

    def on_more(self, eng, st, src, val, site):
        if src == ("sym", "dirty"):
            self.close(st, site)
            st.ghost = (st.ghost[0], ("open", frozenset(), False) if val else "end")
        return True

    def close(self, st, site):
        if isinstance(st.ghost[1], tuple):
            self.items.append((st.ghost[1], dict(st.pc), where(site)))


def check(ctx):
    P = ctx.P
    try:
        lay = layout(P)
        if len(lay) < 5:
            raise LookupError("fields of Storage: %s" % sorted(lay))
    except LookupError as e:
        ctx.undecided.append(str(e))
        return
    schema = sql.read_schema(schema_text(P) or "")

    def bad(key, t):
        ctx.violation("C13:" + key, t)
    good, stray = xors(P)
    for p, why in good.items():
        ctx.inc("combinations")
        if why and why != "?":
            bad("xor:" + p, "%s %s" % (p, why))
        elif why:
            ctx.undecided.append(p + ": combination of bytes not understood")
    if stray or not good or any(w == "?" for w in good.values()):
        ctx.undecided.append("fingerprints are combined in %s" % (stray or "an unknown place"))
        ctx.inc("combinations", FLOORS["combinations"])
        ctx.inc("items", FLOORS["items"])
        ctx.inc("sums", FLOORS["sums"])
        return
    # checkpoint ---------------------------------------------------------------------------------------------
    r = Sum(P, schema, lay["saved"])
    e = run(P, r, SG + "checkpoint", params(P.bodies[SG + "checkpoint"]))
    ctx.inc("abstract_states", e.stats["states"])
    for w in r.early:
        bad("late-read", "Storage::checkpoint reads the old value of a key after replacing it (at %s)" % w)
    hk = {unview(("fld", ITEM, None, "0")), ITEM}
    for (o, terms, ins), pc, w in r.items:
        ctx.inc("items")
        new, old, odd = [], [], []
        for t in terms:
            p = pair(t)
            if p is None:
                odd.append(t)
                continue
            k, v = p[0], p[1:]
            if len(p) != 2 or unview(k) not in hk:
                bad("pair", "Storage::checkpoint accounts for %s, which is not a whole (key, value) pair (at %s)" % (short(t, 80), w))
                continue
            v = v[0]
            while v[0] == "call" and len(v[2]) == 1 and v[1].split("::")[-1] in ("clone", "deref", "as_slice", "as_ref"):
                v = v[2][0]
            if v == ("fld", ITEM, None, "1"):
                new.append(t)
            elif v[0] == "fld" and v[2] == "Some" and v[1][0] == "call" and v[1][1] == "get":
                old.append(v[1][2][0])
            elif awaited(v):
                old.append("db")
            else:
                odd.append(t)
        if odd:
            bad("odd", "Storage::checkpoint accounts for %s (at %s)" % (short(odd[0], 80), w))
            continue
        if any(k[0] == "call" and k[1].split("::")[-1] in ("eq", "ne") or k[0] == "bin" and k[1] in ("Eq", "Ne") and ("fld", ITEM, None, "1") in k[2:4] for k in pc):
            ctx.undecided.append("checkpoint compares values")
            continue
        if len(new) != 1:
            bad("new", "Storage::checkpoint does not account for the new value of every change (at %s)" % w)
        sv = asked = None
        for k in pc:
            if k[0] == "discr" and k[1][0] == "call" and k[1][1] == "get" and unview(k[1][2][1]) in hk and ("saved",) == tuple(x[1] for x in subterms(k[1][2][0]) if x[0] == "sym"):
                sv = says(pc, k[1])
            elif k[0] == "discr" and k[1][0] == "fld" and k[1][2] == "Ok" and awaited(k[1]):
                asked = says(pc, k[1])
        dirty = [x for x in old if x == ("sym", "dirty")]
        if dirty:
            bad("self", "Storage::checkpoint takes the new value of a key for its old one (at %s)" % w)
        elif sv == 1 and len(old) != 1 or sv == 1 and old[0] == "db":
            bad("old", "Storage::checkpoint does not cancel the value that a change replaces (at %s)" % w)
        elif sv != 1 and asked == 1 and old != ["db"]:
            bad("old", "Storage::checkpoint does not cancel the committed value that a change replaces (at %s)" % w)
        elif sv != 1 and asked == 0 and old:
            bad("old0", "Storage::checkpoint cancels a value that never counted (at %s)" % w)
        elif sv is None and asked is None:
            bad("unread", "Storage::checkpoint does not look up the value that a change replaces (at %s)" % w)
        elif sv == 0 and asked is None:
            bad("unread-db", "Storage::checkpoint does not look up the committed value that a change replaces (at %s)" % w)
        elif sv is None and asked == 0:
            bad("unread-saved", "Storage::checkpoint does not look up the saved value that a change replaces (at %s)" % w)
    for v, g, pc, s, st, eng in r.rets:
        if iserr(v):
            continue
        ctx.inc("sums")
        x = part(P, s, "xor")
        if x[0] == "sym" and x[1] == "loop-var" or x[0] in ("top", "phi"):
            ctx.undecided.append("checkpoint: fingerprint %s" % short(x, 40))
        elif x != ("sym", "xor"):
            bad("acc", "Storage::checkpoint leaves a fingerprint of changes that is not the previous one with the new changes: %s" % short(x, 80))
        if isinstance(g[1], tuple):
            bad("stop", "Storage::checkpoint may stop before the last unsaved change")
    # the accumulated value must reach the field
    if not writes_back(ctx, P, schema, lay):
        bad("lost", "Storage::checkpoint does not keep the fingerprint of the changes it saved")
    # commit -------------------------------------------------------------------------------------------------
    r = Db(P, schema)
    e = run(P, r, SG + "commit", params(P.bodies[SG + "commit"]))
    ctx.inc("abstract_states", e.stats["states"])
    for v, g, pc, s, st, eng in r.rets:
        x = okv(v)
        if x is None or x[0] != "agg" or len(x[3]) != 2:
            continue
        ctx.inc("sums")
        ts = xor_terms(x[3][1])
        if ("sym", "xor") not in ts:
            bad("commit:pending", "Storage::commit reports a fingerprint without the layer's changes")
        rest = [t for t in ts if t != ("sym", "xor")]
        if len(rest) != 1 or not awaited(rest[0]):
            bad("commit:base", "Storage::commit reports a fingerprint that does not extend the previous layer's: %s" % ", ".join(short(t, 60) for t in rest))
        else:
            how, text, binds, ex = awaited(rest[0])[0]
            s_ = r.read_stmt(how, text, binds)
            if s_["kind"] == "unknown":
                ctx.undecided.append("commit: fingerprint query not understood")
            elif s_["kind"] != "select" or not fingerprint_of(s_, (("sym", "next_id"), -1)):
                bad("commit:base", "Storage::commit extends the fingerprint of another layer than the previous one")
        for ev in g[0]:
            s_ = r.read_stmt(*ev[1:4])
            f = s_.get("set", {}).get("fingerprint")
            if f is not None and s_["kind"] == "update" and (bound(f) is None or xor_terms(unview(bound(f))) != {unview(t) if t[0] == "agg" else t for t in ts} and unview(bound(f)) != unview(x[3][1])):
                bad("commit:stored", "Storage::commit stores another fingerprint than it reports")
        if not (zeros(part(P, s, "xor")) or part(P, s, "xor") == ("sym", "zeros")):
            bad("commit:reset", "Storage::commit carries the fingerprint of the layer's changes over to the next layer")


class Back(Db):
    """The first item's contributions stay in the term."""


def writes_back(ctx, P, schema, lay):
    """On some path with changes, the field holds more than its initial value (otherwise the local sum is dropped)."""
    r = Back(P, schema)
    run(P, r, SG + "checkpoint", params(P.bodies[SG + "checkpoint"]))
    seen = lost = 0
    for v, g, pc, s, st, eng in r.rets:
        if iserr(v):
            continue
        x, sv = part(P, s, "xor"), part(P, s, "saved")
        if sv == ("sym", "saved"):
            continue
        seen += 1
        if x == ("sym", "xor"):
            lost += 1
    return not seen or lost < seen
