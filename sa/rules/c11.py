"""C11: reads see the latest write, or exactly the state of the layer asked for."""
from .db import *
from .c09 import OPS, TOPS

RULE = ("a read with no layer answers from the unsaved changes if they have the key, else from the saved ones, else from the newest complete layer of the database that has it; "
        "a read at a layer answers only from complete layers up to that one, newest first; a write only adds to the unsaved changes; checkpoint moves every unsaved change to the saved ones; rollback drops the unsaved changes only; "
        "read operations of accounts and templates pass on the layer asked for, and a value that is modified and written back is read without a layer")
EXPLAIN = ("Path-sensitive exploration of the key-value store's operations over symbolic change sets and an uninterpreted database whose statements are parsed; every returning path's answer is compared with the rule. "
           "The account, template and record operations are explored down to their store accesses, with the provenance of the layer argument and of written values. No execution.")
FLOORS = {"operations": 18, "answers": 12, "queries": 2, "layer_arguments": 12}
ASSUME = ["SQLite executes the statements as documented and a completed statement is visible to later ones", "the hash function (Blake3) does not collide", "layer numbers stored as complete are never above the last committed one (C12)"]


def says(pc, t):
    """1 / 0 / None: does this path assume that the option `t` is Some / None?"""
    v = pc.get(("discr", t))
    if v is None:
        return None
    if isinstance(v, frozenset):
        return 0 if 1 in v else 1 if 0 in v else None
    return v


def query(ctx, r, ev):
    s = r.read_stmt(ev[0], ev[1], ev[2])
    if s["kind"] != "select":
        return None
    return s


def check_select(ctx, bad, name, s, want_hash, layer, how):
    """layer: None or the term of the layer bound."""
    ctx.inc("queries")
    cols, conds, order, limit, joins = merged(s)
    if set(s["tables"]) - {"layers", "values"} or "values" not in s["tables"]:
        ctx.undecided.append(name + ": reads other tables")
        return
    if [colname(c) for c in cols][:1] != ["value"]:
        if any(c[0] != "col" for c in cols):
            ctx.undecided.append(name + ": computed column")
            return
        bad("col", "%s answers with the column %s" % (name, colname(cols[0])))
    if "layers" in s["tables"] and not joins:
        bad("join", "%s does not match values with their own layer" % name)
    need = {"complete": 0, "key_hash": 0, "layer_id": 0}
    for c in conds:
        if c[0] == "or" or c[1][0] != "col":
            bad("cond", "%s selects by an additional alternative" % name)
            continue
        n, b = colname(c[1]), bound(c[2])
        if n == "complete" and (c[0], b) in (("=", K(1)), ("<>", K(0)), (">", K(0)), (">=", K(1))):
            need["complete"] = 1
        elif n == "key_hash" and c[0] == "=" and b == want_hash:
            need["key_hash"] = 1
        elif n == "layer_id" and layer is not None and b is not None and (c[0], lin(b)) in (("<=", (layer, 0)), ("<", (layer, 1))):
            need["layer_id"] = 1
        elif n == "layer_id" and layer is None and b is not None and (c[0], lin(b)) in (("<=", (("sym", "next_id"), -1)), ("<", (("sym", "next_id"), 0)), ("<=", (("sym", "next_id"), 0))):
            pass
        elif n == "layer_id" and c[0] in (">=", ">") and b is not None and lin(b)[0] is None and lin(b)[1] <= -2:
            pass
        else:
            bad("cond:" + str(n), "%s restricts the answer to %s %s %s" % (name, n, c[0], short(b, 60) if b else "?"))
    if "layers" in s["tables"] and not need["complete"] or "layers" not in s["tables"]:
        bad("complete", "%s also considers layers that were not completely written" % name)
    if not need["key_hash"]:
        bad("key", "%s does not restrict the answer to the key" % name)
    if layer is not None and not need["layer_id"]:
        bad("layer", "%s at a layer also considers later layers" % name)
    if how == "fetch_all":
        ctx.undecided.append(name + ": picks among rows itself")
    elif not order or colname(order[0][0]) not in ("layer_id", "id") or order[0][1] != "desc":
        bad("order", "%s does not take the newest layer's value" % name)
    elif colname(order[0][0]) == "id":
        ctx.undecided.append(name + ": ordered by row")
    if limit is not None and (bound(limit) is None or bound(limit)[0] != "k" or bound(limit)[1] < 1):
        bad("limit", "%s limits the number of rows to %s" % (name, limit))


class Check(Db):
    def __init__(self, P, schema):
        super().__init__(P, schema)
        self.maps = []
        self.gaps = []

    def on_map(self, eng, st, op, path, args, site):
        self.maps.append((op, path, args, where(site), dict(st.pc)))
        if op == "insert" and st.ghost[1] == "open" and path == self.savedpath and any(x == ("item", ("sym", "dirty")) for a in args for x in subterms(a)):
            st.ghost = (st.ghost[0], "done")

    def on_more(self, eng, st, src, val, site):
        if src == ("sym", "dirty") or src[0] == "call" and ("sym", "dirty") in src[2]:
            if st.ghost[1] == "open":
                self.gaps.append(where(site))
            st.ghost = (st.ghost[0], "open" if val else "end")
        return True


def check(ctx):
    P = ctx.P
    try:
        lay = layout(P)
        if len(lay) < 5:
            raise LookupError("fields of Storage: %s" % sorted(lay))
    except LookupError as e:
        ctx.undecided.append(str(e))
        return
    schema = sql.read_schema(schema_text(P) or "")

    def explore(fn, cls=Check):
        r = cls(P, schema)
        r.savedpath = lay["saved"]
        b = P.bodies[SG + fn]
        names_ = []
        for i in range(b.argc):
            t = tyname(b.locals[i + 1])
            names_.append(("sym", {"State": "hash", "Option": "layer", "slice": "key"}.get(t, "value" if t not in ("Storage", "i64") else t)))
        e = run(P, r, SG + fn, names_)
        ctx.inc("operations")
        ctx.inc("abstract_states", e.stats["states"])
        return r

    def keep(fn, s, but=()):
        for role in lay:
            if role not in but and part(P, s, role) != ("sym", role):
                ctx.violation("C11:%s:%s" % (fn, role), "Storage::%s changes `%s`" % (fn, ".".join(lay[role])))

    D, S, L = ("sym", "dirty"), ("sym", "saved"), ("sym", "layer")
    KEY = ("call", "digest", (("sym", "key"),), None)
    for fn, h, hb in (("get_by_hash", ("sym", "hash"), ("sym", "hash")), ("get", ("agg", ("adt", "svm_types::state::State"), 0, (KEY,)), KEY)):
        if SG + fn not in P.bodies:
            ctx.undecided.append("no Storage::" + fn)
            continue
        r = explore(fn)

        def bad(key, text, fn=fn):
            ctx.violation("C11:%s:%s" % (fn, key), text)

        def lookups(m, pc):
            """What this path knows about the key in a set of changes."""
            out = None
            for k in pc:
                if k[0] == "discr" and k[1][0] == "call" and k[1][1] in ("get", "get_mut") and k[1][2][0] == m:
                    if unview(k[1][2][1]) != hb:
                        bad("otherkey", "Storage::%s looks up another key: %s" % (fn, short(k[1][2][1], 60)))
                    else:
                        out = says(pc, k[1])
            ck = [k for k in pc if k[0] == "call" and k[1].split("::")[-1] == "contains_key" and k[2][0] == m]
            for k in ck:
                out = pc[k]
            return out
        for v, g, pc, s, st, eng in r.rets:
            keep(fn, s)
            if not (v[0] == "agg" and v[1][1].endswith("::Result")):
                ctx.undecided.append("%s answers %s" % (fn, short(v, 80)))
                continue
            if v[2]:
                continue
            ctx.inc("answers")
            v = v[3][0]
            hist = says(pc, L)
            if hist is None:
                bad("ignore", "Storage::%s answers without regard to the layer asked for" % fn)
                continue
            d, sv = lookups(D, pc), lookups(S, pc)
            sel = [e for e in g[0] if e[0] == "sql" and r.read_stmt(*e[1:4])["kind"] == "select"]
            unk = [e for e in g[0] if e[0] == "sql" and r.read_stmt(*e[1:4])["kind"] in ("unknown",)]
            if unk:
                ctx.undecided.append("%s: statement not understood: %s" % (fn, r.read_stmt(*unk[0][1:4]).get("text", "")[:80]))
                continue
            x = v[3][0] if v[0] == "agg" and v[1][1].endswith("::Option") and v[2] else None
            src = None
            if x is not None:
                if x[0] == "fld" and x[2] == "Some" and x[1][0] == "call" and x[1][1] == "get":
                    src = x[1][2][0]
                elif awaited(x):
                    src = "db"
                    if awaited(x)[1][-1:] != ((None, "0"),) and "query_scalar" not in str(x)[:2000]:
                        ctx.undecided.append("%s: %s" % (fn, awaited(x)[1]))
                else:
                    ctx.undecided.append("%s answers %s" % (fn, short(x, 80)))
                    continue
            elif v[0] == "agg" and v[1][1].endswith("::Option"):
                src = "none"
            elif awaited(v):
                src = "db"
            else:
                ctx.undecided.append("%s answers %s" % (fn, short(v, 80)))
                continue
            if hist:
                if src in (D, S):
                    bad("hist", "Storage::%s at a layer answers from changes that are not committed" % fn)
                    continue
                if src == "none" and not sel:
                    bad("none", "Storage::%s at a layer answers None without asking the database" % fn)
                for e in sel:
                    check_select(ctx, bad, "Storage::%s at a layer" % fn, r.read_stmt(*e[1:4]), hb, ("fld", L, "Some", "0"), e[1])
            else:
                if src == S and d != 0:
                    bad("order", "Storage::%s prefers saved changes to unsaved ones" % fn)
                if src in ("db", "none") and (d != 0 or sv != 0):
                    bad("skip", "Storage::%s answers %s although the key may be among the %s changes" % (fn, "from the database" if src == "db" else "None", "unsaved" if d != 0 else "saved"))
                if src == "none" and not sel:
                    bad("none", "Storage::%s answers None without asking the database" % fn)
                for e in sel:
                    check_select(ctx, bad, "Storage::%s" % fn, r.read_stmt(*e[1:4]), hb, None, e[1])
        # a layer that is not complete yet is refused or answered from complete layers only; nothing else to check for panics
    for fn, h in (("upsert", KEY), ("upsert_by_hash", ("sym", "hash"))):
        if SG + fn not in P.bodies:
            continue
        r = explore(fn)
        for v, g, pc, s, st, eng in r.rets:
            ctx.inc("answers")
            keep(fn, s, ("dirty",))
        ins = [m for m in r.maps if m[0] == "insert"]
        if any(m[0] == "entry" for m in r.maps):
            ctx.undecided.append(fn + ": uses an entry")
        elif not ins:
            ctx.violation("C11:%s:none" % fn, "Storage::%s does not record the change" % fn)
        for op, path, a, w, pc in ins:
            if path != lay["dirty"]:
                ctx.violation("C11:%s:where" % fn, "Storage::%s writes to %s (at %s)" % (fn, ".".join(path or ("?",)), w))
            if unview(a[0]) != h:
                ctx.violation("C11:%s:key" % fn, "Storage::%s writes the key %s (at %s)" % (fn, short(a[0], 60), w))
            if unview(a[1]) != ("sym", "value"):
                ctx.violation("C11:%s:value" % fn, "Storage::%s writes the value %s (at %s)" % (fn, short(a[1], 60), w))
        for v, g, pc, s, st, eng in r.rets:
            if part(P, s, "dirty") == ("sym", "dirty") and ins:
                ctx.violation("C11:%s:path" % fn, "Storage::%s may return without recording the change" % fn)
    EMPTY = lambda t: t[0] == "agg" and t[1] in ("array", ("array",)) and not t[3] or t[0] == "call" and t[1].split("::")[-1] in ("new", "default") and not t[2]
    r = explore("rollback")
    for v, g, pc, s, st, eng in r.rets:
        ctx.inc("answers")
        keep("rollback", s, ("dirty",))
        if not (v[0] == "agg" and v[2]) and not EMPTY(part(P, s, "dirty")):
            ctx.violation("C11:rollback:keep", "Storage::rollback keeps unsaved changes")
        if g[0]:
            ctx.violation("C11:rollback:sql", "Storage::rollback touches the database")
    r = explore("checkpoint")
    for w in r.gaps:
        ctx.violation("C11:checkpoint:gap", "Storage::checkpoint does not save every unsaved change (at %s)" % w)
    for op, path, a, w, pc in r.maps:
        if path == lay["saved"] and op == "insert":
            it = ("item", ("sym", "dirty"))
            k, v = unview(a[0]), unview(a[1])
            if k != unview(("fld", it, None, "0")) or v != ("fld", it, None, "1"):
                ctx.violation("C11:checkpoint:item", "Storage::checkpoint saves %s -> %s (at %s)" % (short(k, 60), short(v, 60), w))
        elif path == lay["saved"] and op not in ("extend",):
            ctx.violation("C11:checkpoint:" + op, "Storage::checkpoint removes saved changes (at %s)" % w)
    for v, g, pc, s, st, eng in r.rets:
        if v[0] == "agg" and v[2]:
            continue
        ctx.inc("answers")
        keep("checkpoint", s, ("dirty", "saved", "xor"))
        if not EMPTY(part(P, s, "dirty")):
            ctx.violation("C11:checkpoint:dirty", "Storage::checkpoint leaves unsaved changes behind")
        if g[1] in ("open", "done"):
            ctx.violation("C11:checkpoint:stop", "Storage::checkpoint may stop before the last unsaved change")
        if g[1] is None and not any(m[0] == "extend" for m in r.maps) and not any(k[0] == "call" and "is_empty" in k[1] for k in pc):
            ctx.undecided.append("checkpoint: the loop over unsaved changes was not recognised")
    if not any(m[1] == lay["saved"] and m[0] in ("insert", "extend") for m in r.maps):
        ctx.violation("C11:checkpoint:none", "Storage::checkpoint does not save the unsaved changes")
    upper(ctx)


class Up(Rule):
    max_states = 40000
    max_depth = 40

    def __init__(self):
        self.gets, self.ups = [], []

    def opaque(self, path, body):
        return path.startswith(("svm_state::storage::", "svm_codec::")) or path.endswith("::var_segments")

    def on_call(self, eng, st, path, targs, args, site):
        if path in (SG + "get", SG + "get_by_hash"):
            self.gets.append((eng.snap(st, args[2]), dict(st.pc), where(site)))
        elif path in (SG + "upsert", SG + "upsert_by_hash"):
            self.ups.append((eng.snap(st, args[1]), eng.snap(st, args[2]), dict(st.pc), where(site)))
        return None


def upper(ctx):
    P = ctx.P
    gsf = [f[0] for f in P.variants("svm_state::global_state::GlobalState")[0][2] if tyname(f[1]) == "Option"]
    if len(gsf) != 1:
        ctx.undecided.append("the historical query parameter was not recognised")
        return
    F = gsf[0]

    def param(t):
        return t[0] == "fld" and t[3] == F

    def asked(t):
        return any(param(x) for x in subterms(t))
    for op in [AS + o for o in OPS] + [TS + o for o in TOPS]:
        if op not in P.bodies:
            continue
        r = Up()
        e = run_fn(P, r, op, args=roles(P.bodies[op]))
        name = "::".join(op.split("::")[-2:])
        ctx.inc("operations")
        ctx.inc("abstract_states", e.stats["states"])
        for l, pc, w in r.gets:
            ctx.inc("layer_arguments")
            known = [says(pc, k[1]) for k in pc if k[0] == "discr" and param(k[1])]
            if r.ups:
                if op.split("::")[-1].startswith("set_") and asked(l):
                    ctx.violation("C11:stale:" + name, "%s modifies what it read at the layer asked for (at %s)" % (name, w))
                continue
            isnone = l == NONE or l[0] == "agg" and l[1][1].endswith("::Option") and not l[2]
            if isnone and known != [0]:
                ctx.violation("C11:layer:" + name, "%s ignores the layer that reads are restricted to (at %s)" % (name, w))
            elif not isnone and not asked(l):
                ctx.violation("C11:layer:" + name, "%s reads at the layer %s (at %s)" % (name, short(l, 60), w))
            elif not isnone and l[0] == "agg":
                x = l[3][0]
                while x[0] in ("cast", "trunc", "fld") and not param(x[1] if x[0] == "fld" else x):
                    x = x[2] if x[0] in ("cast", "trunc") else x[1]
                if x[0] == "bin":
                    ctx.violation("C11:layer:" + name, "%s reads at the layer %s (at %s)" % (name, short(l, 60), w))
        for k, v, pc, w in r.ups:
            for t in subterms(v):
                if t[0] == "call" and t[1] in (SG + "get", SG + "get_by_hash"):
                    ctx.inc("layer_arguments")
                    l = t[2][2]
                    if asked(l):
                        ctx.violation("C11:stale:" + name, "%s writes back a record that it read at the layer asked for (at %s)" % (name, w))
                    elif not (l[0] == "agg" and not l[2]):
                        ctx.undecided.append("%s: layer %s" % (name, short(l, 60)))
