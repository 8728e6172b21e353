"""Shared exploration of the key-value store over its SQL database."""
from .st import *
from .. import sql

ST = "svm_state::storage::"
SELF = ("obj", "storage")
RUN = ("execute", "fetch_optional", "fetch_one", "fetch_all", "execute_many", "fetch")


def fields(P, adt):
    return [f[0] for f in P.variants(adt)[0][2]]


def stmts(v, out=None):
    """SQL operations inside a future that are about to run: [(how, text, binds, executor)]"""
    out = [] if out is None else out
    if isinstance(v, (tuple, frozenset)):
        if isinstance(v, tuple) and v and v[0] == "await":
            return out
        if isinstance(v, tuple) and v and v[0] == "call" and v[1].split("::")[-1] in RUN and "sqlx" in v[1]:
            out.append(statement(v))
            return out
        for x in (sorted(v, key=str) if isinstance(v, frozenset) else v):
            stmts(x, out)
    return out


def statement(v):
    q, binds = v[2][0], []
    while q[0] == "call" and q[1].split("::")[-1] in ("bind", "persistent"):
        if q[1].split("::")[-1] == "bind":
            binds.append(q[2][1])
        q = q[2][0]
    while q[0] == "call" and q[1].split("::")[-1] not in ("query", "query_as", "query_scalar", "query_with", "query_as_with") and q[2]:
        q = q[2][0]
    text = q[2][0] if q[0] == "call" and q[2] else q
    return (v[1].split("::")[-1], text[1] if text[0] == "str" else None, tuple(reversed(binds)), v[2][1] if len(v[2]) > 1 else UNIT)


def unview(t):
    """The value behind slices of everything, copies and conversions to bytes."""
    while True:
        if t[0] == "fld" and t[2:] == (None, "0"):
            t = t[1]
        elif t[0] == "slice" and t[2:3] in ((K(0),), (None,)) and (len(t) < 4 or t[3] in (None, ("len", t[1]), K(32))):
            t = t[1]
        elif t[0] == "agg" and t[1] == ("adt", "svm_types::state::State") and len(t[3]) == 1:
            t = t[3][0]
        elif t[0] == "call" and len(t[2]) == 1 and t[1].split("::")[-1] in ("to_vec", "as_slice", "as_ref", "clone", "deref", "into", "from", "as_bytes", "bytes"):
            t = t[2][0]
        else:
            return t


class Db(Rule):
    """ghost: (events so far, item under way). A loop adds each distinct event once."""
    max_states = 40000
    max_depth = 40

    def __init__(self, P, schema):
        self.P, self.schema = P, schema
        self.rets, self.panics, self.odd = [], [], []
        self.awaits = 0

    def opaque(self, path, body):
        return False

    def add(self, st, e):
        ev = st.ghost[0]
        if e not in ev:
            st.ghost = (ev + (e,),) + st.ghost[1:]

    def read_stmt(self, how, text, binds):
        if text is None:
            return {"kind": "unknown", "text": "?"}
        if "create table" in " ".join(text.lower().split()):
            return {"kind": "schema", "text": text}
        try:
            return sql.parse(text, list(binds), self.schema[0])
        except sql.Unread as e:
            return {"kind": "unknown", "text": " ".join(text.split()), "why": str(e)}

    def on_call(self, eng, st, path, targs, args, site):
        n = norm(path)
        if path in xors(self.P)[0] and xors(self.P)[0][path] != "?":
            a, b = eng.snap(st, eng.deref(st, args[0])), eng.snap(st, eng.deref(st, args[1]))
            ts = xor_terms(a) ^ self.contributes(eng, st, xor_terms(b), site)
            v = xor_of(ts)
            if args[0][0] == "ref" and self.P.bodies[path].locals[0] == ("tuple", ()):
                from ..models import place_of
                cell, proj = place_of(eng, st, args[0])
                eng.write(st, cell, proj, v)
                return [(UNIT, st)]
            return [(v, st)]
        if n.endswith("Future::poll") or n.endswith("::block_on"):
            v = eng.snap(st, eng.deref(st, args[-1] if n.endswith("block_on") else args[0]))
            if not (v[0] == "agg" and v[1][0] == "coroutine"):
                for how, text, binds, ex in stmts(v):
                    self.awaits += 1
                    self.on_sql(eng, st, how, text, binds, ex, site)
        elif n.split("::")[-1] in ("insert", "clear", "remove", "extend", "drain", "retain", "entry") and args and args[0][0] == "ref":
            self.on_map(eng, st, n.split("::")[-1], names(eng, st, args[0]), [eng.snap(st, a) for a in args[1:]], site)
        return None

    def on_sql(self, eng, st, how, text, binds, ex, site):
        self.add(st, ("sql", how, text, binds, ex, where(site)))

    def contributes(self, eng, st, ts, site):
        """What remains of the terms combined into a fingerprint after those that belong to the item under way."""
        return ts

    def on_map(self, eng, st, op, path, args, site):
        pass

    def on_return(self, eng, st, val):
        self.rets.append((eng.snap(st, val), st.ghost, dict(st.pc), eng.snap(st, st.store.get(SELF, UNIT)), st, eng))

    def on_panic(self, eng, st, what, site):
        self.panics.append((what, st.ghost, where(site), dict(st.pc)))


def names(eng, st, ref):
    """Field path (names) of the place behind a reference, if it is part of the store."""
    from ..models import place_of
    cell, proj = place_of(eng, st, ref)
    if cell != SELF:
        return None
    return tuple(p[2] if isinstance(p, tuple) and len(p) > 2 and p[0] == "." else p for p in proj)


def layout(P, adt=ST + "Storage", path=()):
    """{role: field path} of the store, by what the fields are: the pool, the two sets of changes, the next layer's number and its fingerprint."""
    out = {}
    for f in P.variants(adt)[0][2]:
        n, t = f[0], tyname(f[1])
        if t == "HashMap" or t == "BTreeMap":
            role = "dirty" if "dirty" in n or not path and "next_layer" not in n and "saved" not in n else "saved"
        elif t in ("i64", "State"):
            role = {"i64": "next_id", "State": "xor"}[t]
        elif t in ("Pool", "SqlitePool"):
            role = "sqlite"
        elif f[1][0] in ("adt", "p") and f[1][1] in P.adts and P.adts[f[1][1]].get("kind", "struct") != "enum" and f[1][1].startswith("svm_state"):
            for r, p in layout(P, f[1][1], path + (n,)).items():
                if r in out:
                    raise LookupError("two candidates for " + r)
                out[r] = p
            continue
        else:
            continue
        if role in out:
            raise LookupError("two candidates for " + role)
        out[role] = path + (n,)
    return out


def storage(P, adt=ST + "Storage", path=(), lay=None):
    lay = lay or {p: r for r, p in layout(P).items()}
    out = []
    for f in P.variants(adt)[0][2]:
        p = path + (f[0],)
        if p in lay:
            out.append(("sym", lay[p]))
        elif any(q[:len(p)] == p for q in lay):
            out.append(storage(P, f[1][1], p, lay))
        else:
            out.append(("sym", ".".join(p)))
    return ("agg", ("adt", adt), 0, tuple(out))


def part(P, s, role):
    """A field of the final storage value, by role."""
    for n in layout(P)[role]:
        if s[0] != "agg":
            s = ("fld", s, None, n)
        else:
            s = s[3][fields(P, s[1][1]).index(n)]
    return s


def run(P, rule, fn, roles_, ghost=((), None), pc=None):
    b = P.bodies[fn]
    args = [("ref", SELF, ()) if tyname(b.locals[i + 1]) == "Storage" else a for i, a in enumerate(roles_)]
    return run_fn(P, rule, fn, ghost=ghost, args=args, store={SELF: storage(P)})


# --- what statements mean -----------------------------------------------------------------------------------

def merged(s):
    """Conditions of a SELECT with the join columns identified: (columns, conditions, order, limit) or None."""
    same, conds = {}, []
    for c in s["cond"]:
        if c[0] == "or":
            conds.append(c)
        elif c[0] == "=" and c[1][0] == "col" and c[2][0] == "col":
            same[c[1]] = c[2]
        else:
            conds.append(c)

    def m(x):
        n = 0
        while x in same and n < 5:
            x, n = same[x], n + 1
        return x
    return [m(c) for c in s["cols"]], [c if c[0] == "or" else (c[0], m(c[1]), m(c[2])) for c in conds], [(m(c), d) for c, d in s["order"]], s["limit"], len(same)


def colname(c):
    return c[-1] if c[0] == "col" else None


def bound(v):
    """The value bound to a condition, or a literal number."""
    if v[0] == "num":
        return K(v[1])
    if v[0] == "bind" or v[0] == "val":
        t = unview(v[1])
        return K(t[1]) if t[0] == "k" and isinstance(t[1], (int, bool)) else t
    return None


def lin(t):
    """(base term, offset) of base + constant."""
    if t[0] == "bin" and t[1] in ("Add", "Sub") and t[3][0] == "k":
        b, o = lin(t[2])
        return b, o + (t[3][1] if t[1] == "Add" else -t[3][1])
    if t[0] == "bin" and t[1] == "Add" and t[2][0] == "k":
        b, o = lin(t[3])
        return b, o + t[2][1]
    if t[0] == "k":
        return None, t[1]
    return t, 0


def awaited(v):
    """The statement whose awaited result a value is taken from, with the path of projections, or None."""
    path = []
    while True:
        if v[0] == "fld":
            path.append((v[2], v[3]))
            v = v[1]
        elif v[0] == "call" and len(v[2]) == 1 and v[1].split("::")[-1] in ("clone", "to_vec", "into", "from", "try_into", "unwrap", "expect", "as_slice", "deref", "cloned"):
            v = v[2][0]
        elif v[0] == "agg" and v[1] == ("adt", "svm_types::state::State") and len(v[3]) == 1:
            v = v[3][0]
        elif v[0] == "await":
            x = v[1]
            if x[0] == "call" and x[1].split("::")[-1] in RUN and "sqlx" in x[1]:
                return statement(x), tuple(reversed(path))
            return None
        else:
            return None


def schema_text(P):
    """The text of the statement that creates the tables, from the source."""
    import os
    from .. import front
    for root, _, fs in os.walk(os.path.join(front.REPO, "crates/host/state/src")):
        for f in fs:
            t = open(os.path.join(root, f), errors="replace").read()
            if f.endswith((".sql", ".rs")) and '"values"' in t and "create table" in t.lower():
                return t
    return None


# --- fingerprints -------------------------------------------------------------------------------------------

STATE = "svm_types::state::State"
ALL_BYTES = ("iter_mut", "iter", "zip", "into_iter", "next", "copied", "cloned", "for_each", "enumerate", "as_mut", "as_ref", "deref", "deref_mut", "index", "index_mut", "map", "collect", "try_into", "into",
             "unwrap", "expect", "clone", "from_fn", "len", "bitxor_assign", "bitxor", "default", "zeros", "from", "as_slice", "as_mut_slice", "by_ref", "copy_from_slice", "fold", "try_from", "bytes")
SOME_BYTES = ("skip", "take", "step_by", "filter", "take_while", "skip_while", "nth", "chunks_exact", "split_at", "filter_map")


def statelike(t):
    while t[0] in ("ref", "ptr"):
        t = t[1]
    return t[0] == "adt" and t[1] == STATE or t[0] == "array" and t[1] == ("p", "u8")


def xors(P):
    """{function that combines two fingerprints byte by byte: problem or None}, [bodies that combine bytes otherwise]"""
    if hasattr(P, "_xors"):
        return P._xors
    good, stray = {}, []
    groups = {}
    for p, b in P.bodies.items():
        if p.startswith(("svm_state::storage", "svm_types::state", "svm_state::")):
            groups.setdefault(p.split("::{closure")[0], []).append(b)
    for p, bs in groups.items():
        ops, ints, calls = [], set(), []
        for b in bs:
            for bl in b.blocks:
                for s in bl[0]:
                    for x in subterms_any(s):
                        if x[:1] == ("bin",) and len(x) == 4 and x[1] in ("BitXor", "BitOr", "BitAnd", "Add", "Sub", "AddWithOverflow", "SubWithOverflow"):
                            ops.append(x[1])
                for x in subterms_any(bl):
                    if x[:1] == ("k",) and len(x) >= 3 and isinstance(x[2], tuple) and x[2][:1] in (("int",), ("scalar",), ("bits",)):
                        ints.add(int(x[2][1]))
                    elif x[:1] == ("cv",) and len(x) == 2 and isinstance(x[1], int):
                        ints.add(x[1])
                if bl[1][0] == "call" and bl[1][1][0] == "k":
                    calls.append(bl[1][1][1][1].split("::")[-1])
        f = P.bodies.get(p)
        sig = f is not None and f.argc == 2 and statelike(f.locals[1]) and statelike(f.locals[2]) and "::<impl" not in p
        bx = [o for o in ops if o == "BitXor"]
        if sig and (tyname(f.locals[0]) == "State" or f.locals[0] == ("tuple", ()) and f.locals[1][0] == "ref" and f.locals[1][-1] == "mut"):
            if not bx and any(c in ("bitxor_assign", "bitxor") for c in calls):
                bx = ["BitXor"]
            if not bx and any(o in ("BitOr", "BitAnd", "Add", "AddWithOverflow", "Sub", "SubWithOverflow") for o in ops):
                good[p] = "combines the bytes of two fingerprints with %s instead of XOR" % ops[0]
            elif not bx:
                continue
            elif any(c in SOME_BYTES for c in calls):
                good[p] = "combines only some of the bytes of two fingerprints (%s)" % [c for c in calls if c in SOME_BYTES][0]
            elif any(c not in ALL_BYTES for c in calls) or len(bx) != 1:
                good[p] = "?"
            elif ints - {0, 1, 32}:
                good[p] = "combines only some of the bytes of two fingerprints (bound %s)" % sorted(ints - {0, 1, 32})
            else:
                good[p] = None
        elif bx and p.startswith("svm_state::storage"):
            stray.append(p)
    P._xors = good, stray
    return P._xors


def subterms_any(x):
    if isinstance(x, tuple):
        yield x
        for y in x:
            yield from subterms_any(y)


def xor_terms(t):
    if t[0] == "call" and t[1] == "xor":
        return set(t[2])
    if t[0] == "agg" and t[1] == ("adt", STATE) and len(t[3]) == 1:
        return xor_terms(t[3][0]) if t[3][0][0] != "agg" else set() if zeros(t) else {t}
    return {t}


def zeros(t):
    if t[0] == "agg" and t[1] == ("adt", STATE) and len(t[3]) == 1:
        return zeros(t[3][0])
    if t[0] == "agg" and t[1] == ("array",):
        return bool(t[3]) and all(x[0] == "k" and x[1] == 0 for x in t[3])
    if t[0] == "call" and t[1].split("::")[-1] in ("zeros", "default") and not t[2]:
        return True
    return t[0] == "repeat" and t[1][0] == "k" and t[1][1] == 0 or t[0] == "zeros"


def xor_of(ts):
    if not ts:
        return ("sym", "zeros")
    if len(ts) == 1:
        return next(iter(ts))
    return ("call", "xor", tuple(sorted(ts, key=str)), None)
