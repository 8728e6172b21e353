"""C12: a committed layer is complete and survives crashes; reopening resumes after it; rewinding removes exactly the later layers."""
from .db import *

RULE = ("commit, when nothing is unsaved, records the next layer as incomplete, then every saved change under that layer, and only after all of them marks that layer complete with the fingerprint it returns, and then moves on to the following layer with nothing saved; "
        "opening removes incomplete layers (and their values) before it determines the last layer and goes on after it; the initial layer is recorded only in an empty database; "
        "rewind refuses unsaved changes and layers that are not complete, removes exactly the layers above the one named, with their values, and goes on after it; nothing advances when the database reports an error")
EXPLAIN = ("Typestate of the database over every path of the store's operations: SQL statements are parsed and ordered along each path, loop items are tracked one by one, and the store's fields at return are compared with the rule. "
           "A crash can only fall between two statements, so the order on each path decides every crash point. No execution.")
FLOORS = {"operations": 4, "paths": 8, "statements": 8}
ASSUME = ["SQLite executes each statement atomically and durably, in the order given, and enforces foreign keys (sqlx's default)", "database errors are reported by sqlx"]
NEXT = ("sym", "next_id")
EMPTY = lambda t: t[0] == "agg" and t[1] == ("array",) and not t[3] or t[0] == "call" and t[1].split("::")[-1] in ("new", "default") and not t[2]


def okv(v):
    return v[3][0] if v[0] == "agg" and v[1][0] == "adt" and v[1][1].endswith("::Result") and not v[2] else None


def iserr(v):
    return v[0] == "agg" and v[1][0] == "adt" and v[1][1].endswith("::Result") and v[2] == 1


class Commit(Db):
    """item: None, open (taken, not yet part of a statement), done, end1 (after the last of some), end0 (there was none)."""

    def __init__(self, P, schema):
        super().__init__(P, schema)
        self.gaps, self.late, self.binds, self.part = [], [], [], []

    def stmt_item(self, s):
        """Is this the insertion of the current item?"""
        return s["kind"].startswith("insert") and s["table"] == "values"

    def on_call(self, eng, st, path, targs, args, site):
        r = super().on_call(eng, st, path, targs, args, site)
        if path.split("::")[-1] in RUN and "sqlx" in path and args:
            q = eng.snap(st, args[0])
            how, text, binds, ex = statement(("call", path, (q, UNIT), None))
            s = self.read_stmt(how, text, binds)
            if self.stmt_item(s):
                self.binds.append((s, where(site)))
                if st.ghost[1] == "open":
                    st.ghost = (st.ghost[0], "done")
        return r

    def on_more(self, eng, st, src, val, site):
        if src == ("sym", "saved"):
            if st.ghost[1] == "open":
                self.gaps.append(where(site))
            st.ghost = (st.ghost[0], "open" if val else "end1" if st.ghost[1] in ("open", "done") else "end0")
        elif src[0] == "count" and src[1][0] == "k":
            self.part.append((src, where(site)))
        elif any(x == ("sym", "saved") for x in subterms(src)):
            self.part.append((src, where(site)))
        return True

    def on_sql(self, eng, st, how, text, binds, ex, site):
        s = self.read_stmt(how, text, binds)
        if self.stmt_item(s) and any(marks(self.read_stmt(*e[1:4])) for e in st.ghost[0]):
            self.late.append(where(site))
        super().on_sql(eng, st, how, text, binds, ex, site)


def marks(s):
    """Does a statement make a layer complete?"""
    c = s.get("set", {}).get("complete") if s["kind"] == "update" or s["kind"].startswith("insert") else None
    return c is not None and s["table"] == "layers" and bound(c) != K(0)


def check(ctx):
    P = ctx.P
    try:
        lay = layout(P)
        if len(lay) < 5:
            raise LookupError("fields of Storage: %s" % sorted(lay))
    except LookupError as e:
        ctx.undecided.append(str(e))
        return
    text = schema_text(P) or ""
    schema = sql.read_schema(text)
    cascade = any(t == "values" and rt == "layers" and casc for (t, c), (rt, rc, casc) in schema[1].items())

    def bad(key, t):
        ctx.violation("C12:" + key, t)
    if schema[0].get("layers") and "id" not in schema[2].get("layers", ()):
        bad("schema:unique", "the schema lets two layers have the same number")

    def events(r, g, name):
        out = []
        for e in g[0]:
            s = r.read_stmt(*e[1:4])
            ctx.inc("statements")
            if s["kind"] == "unknown":
                ctx.undecided.append("%s: statement not understood: %s" % (name, s.get("text", "")[:80]))
                return None
            out.append((s, e[5]))
        return out

    def cond_is(s, col, ops):
        """Exactly one condition, on `col`, with one of the given (operator, base, offset)."""
        cs = s["cond"]
        if len(cs) != 1 or cs[0][0] == "or" or cs[0][1][0] != "col" or cs[0][1][-1] != col:
            return False
        b = bound(cs[0][2])
        return b is not None and (cs[0][0],) + lin(b) in ops

    # commit -------------------------------------------------------------------------------------------------
    r = Commit(P, schema)
    e = run(P, r, SG + "commit", params(P.bodies[SG + "commit"]))
    ctx.inc("operations")
    ctx.inc("abstract_states", e.stats["states"])
    for w in r.gaps:
        bad("commit:gap", "Storage::commit does not store every saved change (at %s)" % w)
    for w in r.late:
        bad("commit:late", "Storage::commit stores a change after the layer was marked complete (at %s)" % w)
    for src, w in r.part:
        lossy = [x for x in subterms(src) if x[0] == "call" and x[1].split("::")[-1] in SOME_BYTES] or src[0] == "agg" and any(n in str(src[1]) for n in ("take", "skip", "filter"))
        if lossy or src[0] == "count":
            bad("commit:part", "Storage::commit stores only part of the saved changes (at %s)" % w)
        else:
            ctx.undecided.append("commit: iterates over %s" % short(src, 60))
    it = ("item", ("sym", "saved"))
    for s, w in r.binds:
        v = {k: bound(x) for k, x in s["set"].items()}
        if v.get("layer_id") is None or v["layer_id"] != NEXT:
            bad("commit:layer", "Storage::commit stores changes under the layer %s (at %s)" % (short(v.get("layer_id") or UNIT, 60), w))
        if unview(v.get("key_hash") or UNIT) not in (it, unview(("fld", it, None, "0"))) or v.get("value") != ("fld", it, None, "1"):
            bad("commit:item", "Storage::commit stores %s -> %s (at %s)" % (short(v.get("key_hash") or UNIT, 60), short(v.get("value") or UNIT, 60), w))
    for v, g, pc, s, st, eng in r.rets:
        if iserr(v):
            ctx.inc("paths")
            if part(P, s, "next_id") != NEXT:
                bad("commit:advance", "Storage::commit moves on to the next layer although it failed")
            continue
        x = okv(v)
        if x is None:
            ctx.undecided.append("commit answers " + short(v, 60))
            continue
        ctx.inc("paths")
        ev = events(r, g, "commit")
        if ev is None:
            continue
        if not clean(pc):
            bad("commit:dirty", "Storage::commit succeeds although there may be unsaved changes")
        if g[1] in ("open", "done"):
            bad("commit:stop", "Storage::commit may stop before the last saved change")
        ins = [(i, s_) for i, (s_, w) in enumerate(ev) if s_["kind"].startswith("insert") and s_["table"] == "layers"]
        val = [i for i, (s_, w) in enumerate(ev) if r.stmt_item(s_)]
        mk = [(i, s_) for i, (s_, w) in enumerate(ev) if marks(s_)]
        if g[1] == "end1" and not val:
            bad("commit:unrun", "Storage::commit never runs the statements that store the changes")
        if g[1] is None and not val and not skipped(pc):
            ctx.undecided.append("commit: the loop over saved changes was not recognised")
        if not ins:
            bad("commit:nolayer", "Storage::commit does not record the layer")
        for i, s_ in ins:
            if bound(s_["set"].get("id", ("num", -9))) != NEXT:
                bad("commit:id", "Storage::commit records the layer %s" % short(bound(s_["set"].get("id", ("num", -9))) or UNIT, 60))
            if marks(s_) and val and i < max(val):
                bad("commit:early", "Storage::commit marks the layer complete before its changes are stored")
        if not mk:
            bad("commit:incomplete", "Storage::commit never marks the layer complete")
        for i, s_ in mk:
            if val and i < max(val):
                bad("commit:early", "Storage::commit marks the layer complete before its changes are stored")
            if s_["kind"] == "update":
                cs = {c[1][-1]: (c[0], bound(c[2])) for c in s_["cond"] if c[0] != "or" and c[1][0] == "col"}
                if cs.get("id") != ("=", NEXT) or len(cs) != len(s_["cond"]) or set(cs) - {"id", "complete"} or "complete" in cs and cs["complete"] != ("=", K(0)):
                    bad("commit:mark", "Storage::commit marks other layers complete than the one it wrote")
        if x[0] == "agg" and len(x[3]) == 2:
            if x[3][0] != NEXT:
                bad("commit:ret", "Storage::commit reports the layer %s" % short(x[3][0], 60))
            F = unview(x[3][1])
            fs = [(s_["set"].get("fingerprint"), s_) for s_, w in ev if s_["kind"] in ("update",) or s_["kind"].startswith("insert") and s_["table"] == "layers"]
            fs = [unview(bound(f)) if bound(f) else None for f, s_ in fs if f is not None]
            if fs and fs[-1] != F:
                bad("commit:fp", "Storage::commit reports another fingerprint than the one it stores")
        for role, want in (("next_id", lambda t: lin(t) == (NEXT, 1)), ("saved", EMPTY), ("xor", lambda t: zeros(t) or t == ("sym", "zeros"))):
            t = part(P, s, role)
            if not want(t):
                bad("commit:" + role, "Storage::commit leaves `%s` = %s" % (".".join(lay[role]), short(t, 60)))

    # rewind -------------------------------------------------------------------------------------------------
    r = Db(P, schema)
    b = P.bodies[SG + "rewind"]
    e = run(P, r, SG + "rewind", [("sym", "layer_id") if tyname(b.locals[i + 1]) == "i64" else ("sym", "a%d" % i) for i in range(b.argc)])
    ctx.inc("operations")
    ctx.inc("abstract_states", e.stats["states"])
    L = ("sym", "layer_id")
    for v, g, pc, s, st, eng in r.rets:
        if iserr(v):
            ctx.inc("paths")
            if part(P, s, "next_id") != NEXT:
                bad("rewind:advance", "Storage::rewind changes the next layer although it failed")
            continue
        if okv(v) is None:
            ctx.undecided.append("rewind answers " + short(v, 60))
            continue
        ctx.inc("paths")
        ev = events(r, g, "rewind")
        if ev is None:
            continue
        if not clean(pc):
            bad("rewind:dirty", "Storage::rewind succeeds although there may be unsaved changes")
        if not below(pc, L, NEXT):
            bad("rewind:bound", "Storage::rewind accepts a layer that is not complete yet")
        dl = [s_ for s_, w in ev if s_["kind"] == "delete" and s_["table"] == "layers"]
        dv = [s_ for s_, w in ev if s_["kind"] == "delete" and s_["table"] == "values"]
        above = lambda s_, c: cond_is(s_, c, {(">", L, 0), (">=", L, 1)})
        if not any(above(d, "id") for d in dl):
            bad("rewind:delete", "Storage::rewind does not remove exactly the layers above the one named")
        for d in dl:
            if not above(d, "id"):
                bad("rewind:delete", "Storage::rewind removes other layers than those above the one named")
        for d in dv:
            if not above(d, "layer_id"):
                bad("rewind:values", "Storage::rewind removes other values than those of the layers above the one named")
        if not cascade and not dv:
            bad("rewind:cascade", "Storage::rewind keeps the values of the layers it removes")
        for role, want in (("next_id", lambda t: lin(t) == (L, 1)), ("saved", EMPTY), ("xor", lambda t: zeros(t) or t == ("sym", "zeros"))):
            t = part(P, s, role)
            if not want(t):
                bad("rewind:" + role, "Storage::rewind leaves `%s` = %s" % (".".join(lay[role]), short(t, 60)))

    # open ---------------------------------------------------------------------------------------------------
    r = Db(P, schema)
    e = run_fn(P, r, SG + "new", ghost=((), None))
    ctx.inc("operations")
    ctx.inc("abstract_states", e.stats["states"])
    for v, g, pc, s, st, eng in r.rets:
        x = okv(v)
        if x is None or x[0] != "agg":
            continue
        ctx.inc("paths")
        ev = events(r, g, "new")
        if ev is None:
            continue
        kinds = [s_ for s_, w in ev]
        dels = [i for i, s_ in enumerate(kinds) if s_["kind"] == "delete" and s_["table"] == "layers"]
        goodd = [i for i in dels if cond_is(kinds[i], "complete", {("=", None, 0), ("<>", None, 1), ("<", None, 1)})]
        dv = [i for i, s_ in enumerate(kinds) if s_["kind"] == "delete" and s_["table"] == "values"]
        q = [i for i, s_ in enumerate(kinds) if s_["kind"] == "select"]
        if not any(s_["kind"] == "schema" for s_ in kinds):
            bad("open:schema", "opening does not create the tables")
        if set(dels) - set(goodd):
            bad("open:delete", "opening removes layers that are complete")
        if not goodd:
            bad("open:keep", "opening keeps layers that were not completely written")
        if not cascade and not dv:
            bad("open:cascade", "opening keeps the values of layers that were not completely written")
        nid = part(P, x, "next_id")
        base, off = lin(nid)
        for role in ("dirty", "saved"):
            if not EMPTY(part(P, x, role)):
                bad("open:" + role, "opening starts with changes in `%s`" % ".".join(lay[role]))
        if not (zeros(part(P, x, "xor")) or part(P, x, "xor") == ("sym", "zeros")):
            bad("open:xor", "opening starts with a fingerprint of changes other than the empty one")
        ins = [s_ for s_ in kinds if s_["kind"].startswith("insert")]
        last = None
        for i in q:
            sel = kinds[i]
            cols, conds, order, limit, j = merged(sel)
            if sel["tables"] == ["layers"] and (colname(cols[0]) == "id" and order and order[0][1] == "desc" and colname(order[0][0]) == "id" or cols[0][0] == "max"):
                last = (i, conds)
            elif sel["tables"] == ["layers"] and colname(cols[0]) == "id":
                bad("open:last", "opening does not look for the last layer")
                last = (i, conds)
        if last is None:
            ctx.undecided.append("open: the query for the last layer was not recognised")
            continue
        only_complete = any(c[0] != "or" and colname(c[1]) == "complete" for c in last[1])
        if any(c[0] == "or" or colname(c[1]) != "complete" for c in last[1]):
            bad("open:last", "opening looks for the last layer among some layers only")
        if goodd and min(goodd) > last[0] and not only_complete:
            bad("open:order", "opening determines the last layer before it removes incomplete ones")
        if base is None:
            if off != -1:
                bad("open:first", "a new database starts with layer %d" % off)
            if not any(s_["table"] == "layers" and bound(s_["set"].get("id", ("num", 0))) == K(-2) and marks(s_) for s_ in ins):
                bad("open:initial", "opening an empty database does not record the initial layer as complete")
        else:
            if not awaited(base):
                ctx.undecided.append("open: next layer is %s" % short(nid, 60))
                continue
            if off != 1:
                bad("open:next", "opening goes on with the layer number %+d of the last one" % off)
            if ins:
                bad("open:insert", "opening an existing database records another initial layer")

    # last_layer ---------------------------------------------------------------------------------------------
    r = Db(P, schema)
    e = run(P, r, SG + "last_layer", params(P.bodies[SG + "last_layer"]))
    ctx.inc("operations")
    for v, g, pc, s, st, eng in r.rets:
        x = okv(v)
        if x is None or x[0] != "agg":
            continue
        ctx.inc("paths")
        ev = events(r, g, "last_layer")
        if lin(x[3][0]) != (NEXT, -1):
            bad("last:id", "Storage::last_layer reports the layer %s" % short(x[3][0], 60))
        for s_, w in ev or []:
            if s_["kind"] == "select" and not fingerprint_of(s_, (NEXT, -1)):
                bad("last:fp", "Storage::last_layer does not report the fingerprint of the last complete layer")
    # connection ---------------------------------------------------------------------------------------------
    for p, b in P.bodies.items():
        if not p.startswith("svm_state::"):
            continue
        for bl in b.blocks:
            t = bl[1]
            if t[0] == "call" and t[1][0] == "k" and t[1][1][0] == "fn" and "sqlx" in t[1][1][1]:
                n = t[1][1][1].split("::")[-1]
                if n in ("foreign_keys", "synchronous", "journal_mode"):
                    a = str(t[2][1])
                    if n == "foreign_keys" and ("0" in a.split("bool")[-1] or "False" in a) and "1" not in a.split("bool")[-1]:
                        if cascade:
                            bad("conn:fk", "%s turns the removal of a layer's values off" % p)
                    elif n != "foreign_keys":
                        ctx.undecided.append("%s sets %s" % (p, n))


def fingerprint_of(s, want):
    cols, conds, order, limit, j = merged(s)
    cs = {colname(c[1]): (c[0], bound(c[2])) for c in conds if c[0] != "or"}
    return colname(cols[0]) == "fingerprint" and "id" in cs and cs["id"][0] == "=" and cs["id"][1] is not None and lin(cs["id"][1]) == want and \
        (set(cs) <= {"id", "complete"}) and cs.get("complete", ("=", K(1))) in (("=", K(1)), ("<>", K(0))) and len(cs) == len(conds)


def clean(pc):
    """Does this path assume that there are no unsaved changes?"""
    D = ("sym", "dirty")
    for k, v in pc.items():
        if k == ("len", D) and v == 0:
            return True
        if k[0] == "bin" and ("len", D) in k[2:4]:
            o = k[3] if k[2] == ("len", D) else k[2]
            if o == K(0) or o[0] == "k" and o[1] == 0:
                if k[1] == "Eq" and v == 1 or k[1] in ("Ne",) and v == 0 or k[1] in ("Lt", "Gt") and v == 0:
                    return True
        if k[0] == "call" and k[1].split("::")[-1] == "is_empty" and D in k[2] and v == 1:
            return True
    return False


def skipped(pc):
    S = ("sym", "saved")
    return any(k == ("len", S) or k[0] == "bin" and ("len", S) in k[2:4] or k[0] == "call" and k[1].split("::")[-1] == "is_empty" and S in k[2] for k in pc)


def below(pc, a, b):
    """Does this path assume a < b?"""
    for k, v in pc.items():
        if k[0] != "bin" or k[1] not in ("Lt", "Le", "Gt", "Ge"):
            continue
        (x, i), (y, j) = lin(k[2]), lin(k[3])
        op = k[1]
        if op in ("Gt", "Ge"):
            x, i, y, j, op = y, j, x, i, {"Gt": "Lt", "Ge": "Le"}[op]
        if not v:
            x, i, y, j, op = y, j, x, i, {"Lt": "Le", "Le": "Lt"}[op]
        if x == a and y == b and i - j - (1 if op == "Le" else 0) + 0 >= 0 - 0 and (i - j >= 0 if op == "Lt" else i - j >= 1):
            return True
    return False
