"""C09: records of different accounts, templates and variables never share a key, and each operation touches exactly its own."""
from .st import *

RULE = ("every key of the key-value store is a format of constant text and full, injectively printed identifiers, and no two kinds of record can produce the same text; "
        "each account and template operation reads and writes only the records of the address it was given; a getter returns the field that creation and its setter store, and a setter keeps the other fields of the record it just read")
EXPLAIN = ("Value-provenance dataflow from every operation of AccountStorage and TemplateStorage, through the async state layer, to each access of the key-value store; "
           "the key formats found are then checked pairwise for overlap (product of their automata) and for injectivity. All paths; no execution.")
FLOORS = {"operations": 14, "store_accesses": 25, "key_formats": 5}
ASSUME = ["the hash function (Blake3) does not collide", "library functions behave as documented"]

HEX = set("0123456789abcdefABCDEF")
DIG = set("0123456789")


class R(Rule):
    max_states = 40000
    max_depth = 40

    def __init__(self):
        self.ev = []
        self.rets = []
        self.segs = []

    def opaque(self, path, body):
        return path.startswith(("svm_state::storage::", "svm_codec::")) or path.endswith("::var_segments")

    def on_call(self, eng, st, path, targs, args, site):
        if path.startswith(SG) and "{" not in path:
            a = [eng.snap(st, x) for x in args]
            self.ev.append((path[len(SG):], a, where(site)))
            st.event(path[len(SG):], *a[1:])
        elif path.endswith("::var_segments"):
            self.segs.append(tuple(eng.snap(st, x) for x in args))
        return None

    def on_return(self, eng, st, val):
        self.rets.append((eng.snap(st, val), st.events()))


def unstr(k):
    """The formatted string behind as_bytes(), &str etc."""
    while k[0] == "call" and k[1].split("::")[-1] in ("as_bytes", "as_str", "into_bytes", "as_ref", "deref", "clone", "to_vec", "must_use") and k[2]:
        k = k[2][0]
    return k


def parts(k):
    """[("lit", text) | ("arg", term)] of a format, or None."""
    k = unstr(k)
    if k[0] in ("str",):
        return [("lit", k[1])]
    if k[0] == "bin" and k[1] == "Add" or k[0] == "call" and k[1] == "str_concat":
        a, b = (parts(x) for x in (k[2:4] if k[0] == "bin" else k[2]))
        return a + b if a and b else None
    if k[0] == "call" and k[1].split("::")[-1] in ("encode", "encode_upper", "to_string"):
        return [("arg", k)]
    if k[0] != "call" or k[1].split("::")[-1] not in ("format", "fmt::format"):
        return None
    a = k[2][0]
    pieces, args = None, []
    for t in subterms(a):
        if t[0] in ("mem", "bytes") and pieces is None:
            pieces = t[1]
    if a[0] == "call" and len(a[2]) > 1:
        arr = a[2][1]
        if arr[0] == "agg":
            args = list(arr[3])
    if pieces is None:
        return None
    b = pieces if isinstance(pieces, (bytes, bytearray)) else bytes.fromhex(pieces) if isinstance(pieces, str) else bytes(pieces)
    out, i, n = [], 0, 0
    while i < len(b):
        c = b[i]
        if c == 0:
            break
        if c < 0x80:
            out.append(("lit", b[i + 1:i + 1 + c].decode("utf8", "replace")))
            i += 1 + c
        elif c == 0x80:
            m = b[i + 1] | b[i + 2] << 8
            out.append(("lit", b[i + 3:i + 3 + m].decode("utf8", "replace")))
            i += 3 + m
        elif c == 0xc0:
            if n >= len(args):
                return None
            out.append(("arg", args[n]))
            n += 1
            i += 1
        else:
            return None
    return out


def ident(t):
    """(class, identifier term) of a printed argument: ('addr', X), ('int', X) or None."""
    while t[0] == "call" and t[1].split("::")[-1] in ("new_display", "to_string", "deref", "as_str", "new_upper_hex", "new_lower_hex", "new_debug", "clone") and t[2]:
        t = t[2][0]
    if t[0] == "call" and t[1].split("::")[-1] in ("encode", "encode_upper"):
        x = t[2][0]
        while x[0] == "call" and x[1].split("::")[-1] in ("as_slice", "as_ref", "bytes", "deref") and x[2]:
            x = x[2][0]
        if x[0] == "fld" and x[3] == "0":
            return ("addr", x[1])
        if x[0] == "sym" or x[0] == "fld":
            return ("addr", x)
        return None
    if t[0] in ("trunc", "cast") and str(t[1]) in ("u8", "i8", "u16", "i16"):
        return None
    if t[0] in ("bin", "cast", "trunc", "k", "phi", "alt"):
        return ("int", t)
    if t[0] in ("sym", "fld"):
        return ("int", t)
    return None


def partial(t):
    """Does this text leave out a part of the identifier?"""
    for x in subterms(t):
        if x[0] in ("slice", "skip", "idx") or x[0] in ("trunc", "cast") and str(x[1]) in ("u8", "i8", "u16", "i16") or x[0] == "bin" and x[1] in ("BitAnd", "Rem", "Shr", "Div") and any(y[0] == "call" for y in subterms(x)):
            return True
        if x[0] == "call" and x[1].split("::")[-1] in ("take", "skip", "truncate", "split_at", "get", "first", "last", "nth", "step_by", "chunks", "short", "len", "to_ascii_lowercase", "trim"):
            return True
    return False


def kind(ps):
    if ps is None:
        return ("?",)
    out = []
    for p in ps:
        if p[0] == "lit" and out and out[-1][0] == "lit":
            out[-1] = ("lit", out[-1][1] + p[1])
        else:
            out.append(p)
    return tuple(p[1] if p[0] == "lit" else (ident(p[1]) or ("?",))[0] for p in out)


def cls(x):
    return HEX if x == "addr" else DIG | HEX if x == "int" else None


def overlap(a, b):
    """Can two key formats produce the same text?"""
    def expand(k):
        out = []
        for i, p in enumerate(k):
            if p in ("addr", "int"):
                out.append(("+", cls(p)))
            else:
                out += [("c", {ch}) for ch in p]
        return out
    A, B = expand(a), expand(b)
    seen, work = set(), [(0, 0)]

    def nxt(S, i):
        """[(chars, next position)]"""
        if i >= len(S):
            return []
        t, cs = S[i]
        return [(cs, i + 1)] + ([(cs, i)] if t == "+" else [])
    while work:
        i, j = work.pop()
        if (i, j) in seen:
            continue
        seen.add((i, j))
        if i == len(A) and j == len(B):
            return True
        for c1, n1 in nxt(A, i):
            for c2, n2 in nxt(B, j):
                if c1 & c2:
                    work.append((n1, n2))
    return False


def ambiguous(k):
    """Placeholders that run into each other or into following text."""
    for i, p in enumerate(k[:-1]):
        if p == "int":
            n = k[i + 1]
            if n in ("addr", "int") or n[:1] in cls(p):
                return True
    return False


OPS = ["create", "create_stub", "load", "name", "template_addr", "balance", "counter", "set_balance", "set_counter", "get_var", "set_var_bytes"]
TOPS = ["create", "sections", "set_core", "set_noncore"]


def strip_enc(v):
    while v[0] == "call" and v[1].split("::")[-1] in ("encode_to_vec", "into", "from", "to_vec", "clone") and v[2]:
        v = v[2][0]
    return v


def decoded(t):
    """The key whose stored bytes a decoded value came from."""
    ks = [x[2][1] for x in subterms(t) if x[0] == "call" and x[1] in (SG + "get", SG + "get_by_hash")]
    return ks


def check(ctx):
    P = ctx.P
    formats = {}
    gets, sets = {}, {}

    def bad(key, text):
        ctx.violation("C09:" + key, text)

    def look(op, addr):
        r = R()
        e = run_fn(P, r, op, args=roles(P.bodies[op]))
        ctx.inc("operations")
        ctx.inc("abstract_states", e.stats["states"])
        acc = []
        name = op.split("::")[-2] + "::" + op.split("::")[-1]
        for o, a, w in r.ev:
            if o not in ("get", "upsert"):
                continue
            ctx.inc("store_accesses")
            ps = parts(a[1])
            if ps is None:
                segs = [x for x in subterms(a[1]) if x[0] == "call" and x[1].endswith("::var_segments")]
                if segs or any(x[0] in ("phi", "alt", "next") for x in subterms(a[1])):
                    acc.append((o, "segment", a, w))
                    continue
                if any(x[0] == "sym" and x[1] in ("address", "template_addr", "self") for x in subterms(a[1])) and not partial(a[1]):
                    ctx.undecided.append("%s uses a key of unknown form: %s (at %s)" % (name, short(a[1], 80), w))
                else:
                    bad(name + ":key", "%s uses a key that doesn't determine the identifier: %s (at %s)" % (name, short(a[1], 80), w))
                continue
            k = kind(ps)
            if "?" in k and not any(partial(p[1]) or not any(x[0] in ("sym", "item", "phi") for x in subterms(p[1])) for p in ps if p[0] == "arg" and ident(p[1]) is None):
                ctx.undecided.append("%s builds a key from %s (at %s)" % (name, "; ".join(short(p[1], 60) for p in ps if p[0] == "arg"), w))
                continue
            if "?" in k:
                bad(name + ":ident", "%s builds a key from %s, which does not determine the identifier (at %s)" % (name, "; ".join(short(p[1], 60) for p in ps if p[0] == "arg"), w))
                continue
            formats.setdefault(k, set()).add(name)
            ids = [ident(p[1])[1] for p in ps if p[0] == "arg"]
            acc.append((o, k, a, w, ids))
        return r, acc, name

    def own(name, acc, okids):
        for x in acc:
            if x[1] == "segment":
                continue
            for i in x[4]:
                if i not in okids and not (i[0] == "fld" and decoded(i)):
                    bad(name + ":addr", "%s accesses the record of %s (at %s)" % (name, short(i, 60), x[3]))
    SELF = ("fld", ("sym", "self"), None, "address")
    recs = {}
    ok_vals = lambda r: [(v[3][0], ev) for v, ev in r.rets if v[0] == "agg" and v[1][0] == "adt" and v[1][1].endswith("::Result") and not v[2]]
    # accounts
    for op in OPS:
        if AS + op not in P.bodies:
            ctx.undecided.append("no AccountStorage::" + op)
            continue
        r, acc, name = look(AS + op, None)
        me = {SELF, ("sym", "address")}
        own(name, [a for a in acc if not (a[1] != "segment" and str(a[1][0]).startswith("templates"))], me)
        for a in acc:
            if a[1] != "segment" and str(a[1][0]).startswith("templates"):
                for i in a[4]:
                    if i != ("sym", "template_addr") and not decoded(i):
                        bad(name + ":tmpl", "%s reads the template %s" % (name, short(i, 60)))
        w = [a for a in acc if a[0] == "upsert"]
        if op in ("get_var", "set_var_bytes"):
            for g in r.segs:
                ctx.inc("segmentations")
                if g[0] != SELF:
                    bad(name + ":seg", "%s accesses the variables of %s" % (name, short(g[0], 60)))
        if op in ("name", "template_addr", "balance", "counter"):
            for v, ev in ok_vals(r):
                if v[0] == "fld" and decoded(v):
                    gets.setdefault(op, set()).add((kind(parts(decoded(v)[0])), v[-1]))
                elif v[0] != "never":
                    bad(name + ":val", "%s returns %s" % (name, short(v, 80)))
            if w:
                bad(name + ":writes", "%s writes to the store" % name)
        elif op.startswith("set_") and op != "set_var_bytes":
            f = op[4:]
            val = ("sym", f)
            done = False
            for v, ev in r.rets:
                ups = [e for e in ev if e[0] == "upsert"]
                okk = v[0] == "agg" and not v[2]
                if okk and len(ups) != 1:
                    bad(name + ":writes", "%s performs %d writes" % (name, len(ups)))
                for e in ups:
                    done = True
                    new = strip_enc(e[2])
                    k = kind(parts(e[1]) or [])
                    if new[0] == "upd":
                        src = [kk for kk in decoded(new[1])]
                        ch = {x[0][-1]: x[1] for x in new[2]} if isinstance(new[2], tuple) else {}
                        if not src or any(s != e[1] for s in src):
                            bad(name + ":src", "%s rewrites the record %s with the contents of another record" % (name, short(e[1], 60)))
                        if set(ch.values()) != {val}:
                            bad(name + ":upd", "%s stores %s" % (name, ", ".join("%s = %s" % (a, short(b, 40)) for a, b in ch.items())))
                        sets.setdefault(f, set()).update((k, a) for a in ch)
                    elif new[0] == "agg":
                        fs = [x[0] for x in P.variants(new[1][1])[new[2] or 0][2]]
                        for fn, x in zip(fs, new[3]):
                            if x == val:
                                sets.setdefault(f, set()).add((k, fn))
                            elif not (x[0] == "fld" and x[-1] == fn and decoded(x) and all(kk == e[1] for kk in decoded(x))):
                                bad(name + ":keep", "%s changes the field %s to %s" % (name, fn, short(x, 60)))
                    else:
                        bad(name + ":form", "%s stores %s" % (name, short(new, 80)))
            if not done:
                bad(name + ":none", "%s never writes" % name)
        elif op in ("create", "create_stub"):
            for v, ev in r.rets:
                if not (v[0] == "agg" and not v[2]):
                    continue
                got = {}
                for e in ev:
                    if e[0] != "upsert":
                        continue
                    new = strip_enc(e[2])
                    if new[0] != "agg":
                        bad(name + ":form", "%s stores %s" % (name, short(new, 80)))
                        continue
                    fs = [x[0] for x in P.variants(new[1][1])[new[2] or 0][2]]
                    for fn, x in zip(fs, new[3]):
                        got[(kind(parts(e[1]) or []), fn)] = x
                recs.setdefault(op, []).append(got)
        elif w and op != "set_var_bytes":
            bad(name + ":writes", "%s writes to the store" % name)
    for f, gs in gets.items():
        if len(gs) != 1:
            bad("get:" + f, "%s reads more than one record" % f)
        for g in gs:
            for op, rs in recs.items():
                for got in rs:
                    x = got.get(g)
                    stub = op == "create_stub" and f == "template_addr"
                    if x is None or not stub and strip_enc(x) != ("sym", f):
                        bad("%s:%s" % (op, f), "AccountStorage::%s stores %s where AccountStorage::%s reads" % (op, short(x or UNIT, 60), f))
            if f in sets and sets[f] != {g}:
                bad("set:" + f, "AccountStorage::set_%s and AccountStorage::%s use different fields" % (f, f))
    for f in ("balance", "counter"):
        if f not in gets or f not in sets:
            ctx.undecided.append("no getter/setter pair for " + f)
    # templates
    tk = {}
    for op in TOPS:
        if TS + op not in P.bodies:
            continue
        r, acc, name = look(TS + op, None)
        own(name, acc, {("fld", ("sym", "self"), None, "addr"), ("sym", "template_addr")})
        tk[op] = acc
        if op == "create":
            for v, ev in r.rets:
                for e in ev:
                    if e[0] == "upsert":
                        sets.setdefault("t:" + {"Sections": "core_sections", "Sections2": "noncore_sections"}.get(str(strip_enc(e[2])[-1]), "?"), set()).add(kind(parts(e[1]) or []))
    wr = {a[1] for a in tk.get("create", []) if a[0] == "upsert"}
    rd = {a[1] for a in tk.get("sections", []) if a[0] == "get"}
    if wr != rd:
        bad("templates", "TemplateStorage::create and ::sections use different records: %s / %s" % (sorted(map(str, wr)), sorted(map(str, rd))))
    if len(wr) < 2:
        bad("templates:one", "the core and non-core sections of a template share a record")
    for op, nm in (("set_core", "core_sections"), ("set_noncore", "noncore_sections")):
        if op in tk:
            ks = {a[1] for a in tk[op] if a[0] == "upsert"}
            if sets.get("t:" + nm) is not None and ks != sets["t:" + nm]:
                bad("templates:" + op, "TemplateStorage::%s does not replace what create stored" % op)
    # variables: the keys inside the segmentation
    for p in [p for p in P.bodies if p.endswith("::var_segments")]:
        b = P.bodies[p]

        class V(Rule):
            keys = set()

            def on_return(s, eng, st, val):
                for t in subterms(eng.deep(st, val)):
                    if t[0] == "call" and t[1].split("::")[-1] == "format":
                        s.keys.add(t)

            def on_call(s, eng, st, path, targs, args, site):
                if path.split("::")[-1] == "format" and path.startswith("alloc"):
                    s.keys.add(("call", path, tuple(eng.snap(st, a) for a in args), None))
                return None
        v = V()
        v.keys = set()
        Engine(P, v).run(b, (), roles(b))
        for t in v.keys:
            ps = parts(t)
            k = kind(ps) if ps else None
            if not k or "?" in k:
                if partial(t):
                    bad("segment:key", "variables are stored under a key that doesn't determine account and segment: %s" % short(t, 80))
                else:
                    ctx.undecided.append("variables are stored under a key of unknown form: %s" % short(t, 80))
                continue
            formats.setdefault(k, set()).add("variables")
            ids = [ident(x[1]) for x in ps if x[0] == "arg"]
            if [i for i in ids if i[0] == "addr"] != [("addr", ("sym", "address"))]:
                bad("segment:addr", "the key of a variable does not name its account: %s" % short(t, 80))
            if not any(i[0] == "int" for i in ids):
                bad("segment:idx", "the key of a variable's segment does not name the segment: %s" % short(t, 80))
    ks = sorted(formats, key=str)
    ctx.inc("key_formats", len(ks))
    for i, a in enumerate(ks):
        ctx.sample("key " + "".join(x if x not in ("addr", "int") else "{%s}" % x for x in a))
        if ambiguous(a):
            bad("ambiguous:%s" % (a,), "two identifiers run into each other in the key %s" % (a,))
        for b in ks[i + 1:]:
            if overlap(a, b):
                bad("overlap", "the key formats %s (%s) and %s (%s) overlap" % ("".join(a), "/".join(formats[a]), "".join(b), "/".join(formats[b])))
