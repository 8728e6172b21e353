"""C01: what every encoder writes, its decoder reads back as the same value."""
from ..codec import *
from ..eng import *
from ..prog import tyname


def is_primitive(t):
    return t is not None and t[0] == "p"


class Matcher:
    def __init__(self, P, T):
        self.P = P
        self.T = T
        self.constr = {}

    def __call__(self, eng, st, v):
        return self.m(eng, st, v, SELF, self.T, tyname(self.T))

    def m(self, eng, st, v, t, ty, label, depth=0):
        """None if v is the value t, else a description of the difference."""
        P = self.P
        v = eng.deref(st, v)
        if v == t:
            return None
        while v[0] == "mut":
            v = v[1]
        if depth > 12:
            return "%s: too deep" % label
        if v[0] == "k":
            kn = eng.known(st, t)
            if kn == v[1]:
                return None
            return "%s is read back as %s, encoded from %s" % (label, short(v), short(t))
        if v[0] == "agg" and v[1][0] == "adt":
            vs = P.variants(v[1][1])
            if v[1][1].endswith("PhantomData"):
                return None
            if v[1] == OPT:
                d = ("discr", t)
                kn = eng.known(st, d)
                if v[2] == 0 and kn == 1 and label.endswith("Gas.0") and eng.known(st, ("fld", t, "Some", "0")) == 0:
                    return None     # zero gas and no gas share one encoding
                if kn != v[2]:
                    if v[2] == 0 and kn is None:
                        return "%s is read back as None" % label
                    return "%s: presence of the value is lost" % label
                if v[2] == 1:
                    return self.m(eng, st, v[3][0], ("fld", t, "Some", "0"), ty[2][0] if ty and ty[0] == "adt" and ty[2] else None, label, depth + 1)
                return None
            if not vs:
                return "%s: unknown type %s" % (label, v[1][1])
            vn = None
            kind = P.adts.get(v[1][1], {}).get("kind")
            if len(vs) == 1 and kind == "Enum":
                vn = vs[0][0]
            if len(vs) > 1:
                d = eng.known(st, eng.discr(st, t))
                if d is None or d != vs[v[2]][1]:
                    return "%s: variant %s is read back for another variant" % (label, vs[v[2]][0])
                vn = vs[v[2]][0]
            fl = vs[v[2] or 0][2]
            for i, (f, x) in enumerate(zip(fl, v[3])):
                ft = f[1]
                w = self.m(eng, st, x, eng.field(t, (v[2], vn) if vn else None, i, f[0]), ft, "%s.%s" % (label, f[0]), depth + 1)
                if w:
                    return w
            return None
        if v[0] == "agg" and v[1][0] == "tuple":
            for i, x in enumerate(v[3]):
                w = self.m(eng, st, x, ("fld", t, None, str(i)), None, "%s.%d" % (label, i), depth + 1)
                if w:
                    return w
            return None
        if v[0] == "agg" and v[1][0] == "array" and not v[3]:
            ln = eng.length(st, t)
            if eng.known(st, ln) == 0:
                return None
            if any(e[0] == "more" and e[1] == nsrc(t) and e[2] is False for e in st.events()):
                if not any(e[0] == "more" and e[1] == nsrc(t) and e[2] is True for e in st.events()):
                    return None
            return "%s is read back empty" % label
        if v[0] in ("seq", "appended") or (v[0] == "agg" and v[1][0] == "array"):
            els = v[1] if v[0] == "seq" else (v[2] if v[0] == "appended" else v[3])
            src = nsrc(t)
            if not any(e[0] == "more" and e[1] == src and e[2] is False for e in st.events()):
                return "%s: collection is not read element by element" % label
            for x in els:
                w = self.m(eng, st, x, ("item", src), None, label + "[]", depth + 1)
                if w:
                    return w
            return None
        if v[0] == "slice" and v[1] == t and v[2] == K(0) and eng.known(st, ("bin", "Lt", ("k", 255, "int"), ("len", t))) == 1:
            return None     # documented truncation of long failure messages
        if v[0] == "call" and v[1].endswith("FixedLayout::from_byte_sizes"):
            return self.fixed_layout(eng, st, v, t, label)
        return "%s is read back as %s, encoded from %s" % (label, short(v), short(t))

    def fixed_layout(self, eng, st, v, t, label):
        """A fixed layout is determined by its first id and its byte sizes (when it has variables)."""
        first, sizes = v[2]
        vars_ = ("fld", t, None, "vars")
        els = eng.elems(sizes)
        if els is None:
            return "%s: byte sizes are read back as %s" % (label, short(sizes))
        if not els:
            return None
        w = self.m(eng, st, first, ("fld", ("fld", t, None, "first"), "Some", "0"), None, label + ".first")
        for x in els:
            w = w or self.m(eng, st, x, ("fld", ("item", vars_), None, "byte_size"), None, label + ".byte_size")
        return w


def copy_row(r):
    """A field-by-field copy of another value of the type."""
    return all(x[0] == "fld" and x[1] == r[0][1] and x[2] is None for x in r)


def constructions(P, adt):
    rows = []
    for b in P.bodies.values():
        if " as svm_codec::codec::Codec>::decode" in b.path or "<impl svm_codec::codec::Codec for " in b.path:
            continue
        if any(s[0] == "=" and s[2][0] == "agg" and s[2][1][0] == "adt" and s[2][1][1] == adt for blk in b.blocks for s in blk[0]):
            rows += [(b.path, r) for r in harvest(P, b, adt) if not copy_row(r)]
    return rows


def facts_of(P, eng, t, x, out):
    """Record in `out` that t has the constant value x."""
    if x[0] == "k":
        out[t] = x[1]
    elif x[0] == "agg" and x[1][0] == "adt":
        vs = P.variants(x[1][1])
        if not vs:
            return
        if len(vs) > 1 or x[1] == OPT:
            out[("discr", t)] = vs[x[2]][1]
        for i, (f, y) in enumerate(zip(vs[x[2] or 0][2], x[3])):
            facts_of(P, eng, ("fld", t, vs[x[2]][0] if len(vs) > 1 else None, f[0]), y, out)
    elif x == ("agg", ("array",), None, ()):
        out[("len", t)] = 0


def shapes(P, T, t=SELF, depth=0):
    """Facts true of every value of T built anywhere in the code base, by outcome (success / failure)."""
    if T[0] != "adt" or depth > 2:
        return [{}]
    vs = P.variants(T[1])
    if not vs:
        return [{}]
    if len(vs) > 1 and T[1].startswith("svm_") and any(
            len(v[2]) == 1 and has_flag(P, v[2][0][1]) for v in vs):
        out = []
        for nm, dv, fs in vs:
            for sub in (shapes(P, fs[0][1], ("fld", t, nm, fs[0][0]), depth + 1) if len(fs) == 1 else [{}]):
                d = dict(sub)
                d[("discr", t)] = dv
                out.append(d)
        return out
    if not has_flag(P, T):
        return [{}]
    names = [f[0] for f in vs[0][2]]
    si = names.index("success")
    rows = constructions(P, T[1])
    out = []
    for flag in (0, 1):
        hit = [r for _, r in rows if r[si][0] != "k" or r[si][1] == flag]
        d = {("fld", t, None, "success"): flag}
        for i, n in enumerate(names):
            if hit and all(r[i] == hit[0][i] for r in hit) and i != si:
                facts_of(P, None, ("fld", t, None, n), hit[0][i], d)
            elif hit and all(r[i][0] == "agg" and r[i][1] == OPT and r[i][2] == 1 for r in hit):
                d[("discr", ("fld", t, None, n))] = 1
        out.append(d)
    return out


def has_flag(P, T):
    if not T or T[0] != "adt":
        return False
    vs = P.variants(T[1])
    return bool(vs) and len(vs) == 1 and any(f[0] == "success" for f in vs[0][2])


def harvest(P, body, adt):
    """Field values of every construction of `adt` in `body` (everything else unknown)."""
    rows = []

    class H(Rule):
        max_states = 4000

        def opaque(s, path, b):
            return b.crate != body.crate

    class E(Engine):
        def rvalue(s, st, f, r):
            v = Engine.rvalue(s, st, f, r)
            if r[0] == "agg" and f.body is body and r[1][0] == "adt" and r[1][1] == adt:
                rows.append(tuple(s.snap(st, x) for x in v[3]))
            return v

    e = E(P, H())
    try:
        e.run(body, tuple(("param", i, g) for i, g in enumerate(body.gen)), [("sym", "a%d" % i) for i in range(body.argc)])
    except Budget:
        rows.append(tuple(("top",) for _ in range(40)))
    return rows


def codec_types(P):
    """(label, Self type, encode body, decode body, impl targs)"""
    out = []
    uses = set()
    for b in P.bodies.values():
        for blk in b.blocks:
            t = blk[1]
            if t[0] == "call" and t[5] and t[5][0] == "fn" and t[5][1] in (ENC, DEC):
                uses.add(t[5][2][0])
    for im in P.impls[CODEC]:
        T = im["args"][0]
        e = P.bodies.get(im["items"]["encode"][1])
        d = P.bodies.get(im["items"]["decode"][1])
        insts = [(T, tuple(("param", i, g) for i, g in enumerate(im["gen"])))]
        if im["gen"] and T[0] == "adt" and "DataWithPrefix" in T[1]:
            insts = []
            for u in sorted(uses, key=repr):
                s = {}
                if not has_param(u) and P.unify(T, u, s):
                    insts.append((u, tuple(s.get(i) for i in range(len(im["gen"])))))
        for T2, a in insts:
            out.append((tyname(T2), T2, e, d, a))
    return out


def has_param(t):
    if not isinstance(t, tuple):
        return False
    if t and t[0] == "param":
        return True
    return any(has_param(x) for x in t if isinstance(x, tuple))


SKIP_SECTIONS = ("Sections",)


def opq(path, body):
    return path.endswith("FixedLayout::from_byte_sizes")


def product(P, T, enc, dec, targs, inline=frozenset(), pc=None):
    atomic = lambda t: t != T and t not in inline and not (t and t[0] == "p")
    while True:
        lts = None
        try:
            lts, ee, er = encoder(P, enc, targs + (WTY,), atomic, T, pc, opq)
            if not lts.exits:
                return {"unencodable": True, "lts": lts, "states": ee.stats["states"]}
            dr = DecRule(P, lts, atomic, ee, Matcher(P, T))
            dr.opaque = opq
            de = Engine(P, dr)
            de.utf8 |= ee.utf8
            de.arrlen.update(ee.arrlen)
            de.symty.update(ee.symty)
            de.run(dec, targs + (RTY,), [R], ghost=(0, None, ()), pc=pc)
            return {"problems": dr.problems, "lts": lts, "states": ee.stats["states"] + de.stats["states"],
                    "reads": dr.reads, "oks": dr.oks, "inlined": de.inlined | ee.inlined, "inline": inline}
        except Refine as r:
            new = set(t for t in r.types if t not in inline)
            if not new or any(t[0] == "param" for t in new):
                return {"problems": {("shape", "-"): "reads do not line up with writes around %s" % ", ".join(tyname(t) for t in r.types)},
                        "lts": lts, "states": 0, "reads": 0, "oks": 0, "inlined": set(), "inline": inline}
            inline = inline | new


# ------------------------------------------------------------ section container
SEC = "svm_codec::section::"


class FinishRule(EncRule):
    def on_call(self, eng, st, path, targs, args, site):
        if path == ENC and self.atomic(targs[0]):
            s = st.copy()
            s.event("enc", targs[0], eng.snap(st, args[0]), where(site))
            return [(UNIT, s)]
        if path in (WEXT + "::write_byte", WEXT + "::write_bytes"):
            s = st.copy()
            v = eng.snap(st, args[1])
            s.event("w", v, K(1) if path.endswith("byte") else eng.length(st, v), "byte" if path.endswith("byte") else "bytes", where(site))
            return [(UNIT, s)]
        return None


class SectionsDec(DecRule):
    def __init__(self, payload, *a):
        DecRule.__init__(self, *a)
        self.payload = payload
        self.hits = set()

    def on_call(self, eng, st, path, targs, args, site):
        if path == DEC and targs[0] in self.payload and eng.deref(st, args[0]) == R:
            out = []
            for e, m, s2 in self.closure(eng, st):
                if e[0] == "exit":
                    out.append((err(("eof",)), s2))
                elif e[0] == "w" and e[2][0] != "k":
                    s2.ghost = (m, None, s2.ghost[2])
                    self.hits.add(targs[0])
                    out.append((ok(("call", "payload", (("ty", targs[0]), e[1]), None)), s2))
                else:
                    self.problem(("section", tyname(targs[0])), "a %s is decoded where %s wrote something else" % (tyname(targs[0]), e[-1]))
            return out
        return DecRule.on_call(self, eng, st, path, targs, args, site)


def variant_table(P, body, args, symty, result):
    rows = []

    class V(Rule):
        max_states = 3000

        def on_call(s, eng, st, path, targs, a, site):
            if path == DEC:
                x = st.copy()
                return [(ok(("call", "payload", (("ty", targs[0]),), None)), x)]

        def on_return(s, eng, st, val):
            rows.append((dict(st.pc), eng.snap(st, val)))

    e = Engine(P, V())
    e.symty.update(symty)
    e.run(body, tuple(("param", i, g) for i, g in enumerate(body.gen)), args)
    return rows


def sections(ctx):
    P = ctx.P
    SECTION, KIND = "svm_types::section::Section", "svm_types::section::SectionKind"
    SECTION = next(a for a in P.adts if a.endswith("::Section") and a.startswith("svm_types"))
    KIND = next(a for a in P.adts if a.endswith("::SectionKind") and a.startswith("svm_types"))
    kinds = {dv: nm for nm, dv, _ in P.variants(KIND)}
    payload = {v[2][0][1]: v[0] for v in P.variants(SECTION)}
    kindfn = next(b for b in P.bodies.values() if b.path.endswith("::Section::kind") and b.path.startswith("svm_types"))
    k_of = {}
    for pc, v in variant_table(P, kindfn, [SELF], {SELF: ("adt", SECTION, ())}, None):
        var = pc.get(("discr", SELF))
        if v[0] == "agg":
            k_of[P.variants(SECTION)[var][0] if isinstance(var, int) else None] = P.variants(KIND)[v[2]][0]
    dec = P.bodies[SEC + "decode::SectionsDecoder::<'a, T>::decode_section"]
    prev = ("adt", SEC + "preview::SectionPreview", ())
    back = {}
    for pc, v in variant_table(P, dec, [SELF], {}, None):
        if v[0] == "agg" and v[1] == RES and v[2] == 0 and v[3][0][0] == "agg" and v[3][0][1] == ("adt", SECTION):
            ks = [x for t, x in pc.items() if t[0] == "discr" and t[1][0] == "fld" and t[1][3] == "kind" and isinstance(x, int)]
            if len(ks) == 1:
                sv = P.variants(SECTION)[v[3][0][2]]
                back[kinds[ks[0]]] = (sv[0], v[3][0][3][0])
    for var, k in sorted(k_of.items()):
        ctx.inc("section_kinds")
        if k not in back:
            ctx.violation("C01:sections:%s" % k, "template sections: kind %s written for %s sections is not decoded by the section decoder" % (k, var))
        elif back[k][0] != var:
            ctx.violation("C01:sections:%s" % k, "template sections: a %s section is tagged %s, which decodes as a %s section" % (var, k, back[k][0]))
        else:
            x = back[k][1]
            want = {v: t for t, v in payload.items()}[var]
            if x[0] == "call" and x[1] == "payload" and x[2][0][1] != want:
                ctx.violation("C01:sections:%s:type" % k, "template sections: kind %s is decoded as %s" % (k, tyname(x[2][0][1])))
    # count, previews and bodies line up
    fin = P.bodies[SEC + "encode::SectionsEncoder::finish"]
    lts = Lts()
    rule = FinishRule(lts, lambda t: t[0] != "p")
    eng = Engine(P, rule)
    eng.graph = lts
    eng.run(fin, (), [SELF])
    lts.finish()
    ds = P.bodies[SEC + "decode::decode_sections"]
    for mode, arg in (("all", NONE), ("some", some(("sym", "interests")))):
        dr = SectionsDec(set(payload), P, lts, lambda t: t == prev, eng, lambda e, s, v: None)
        de = Engine(P, dr)
        de.utf8 |= eng.utf8
        try:
            de.run(ds, (RTY,), [R, arg], ghost=(0, None, ()))
        except Refine as r:
            dr.problem(("shape",), "section previews and bodies are not read in the order they are written")
        ctx.inc("container_states", de.stats["states"])
        ctx.inc("container_reads", dr.reads)
        for k, t in dr.problems.items():
            ctx.violation("C01:sections:%s:%s" % (mode, k[0]), "template sections container: " + t)
        if not dr.oks and not dr.problems:
            ctx.undecided.append("section container (%s): no successful decoding path" % mode)


# ------------------------------------------------------------ entry
RULE = ("for every type with a binary encoding: the decoder, run over the automaton of everything the encoder can write, "
        "returns a value equal field by field to the encoded one, consumes exactly what was written and reaches no error or panic; "
        "a declared fixed size equals the bytes written")
EXPLAIN = ("Dataflow fixpoint over the MIR of every `encode`/`decode` pair: encoder abstracted to a write automaton (provenance terms, "
           "loop decisions, branch facts), decoder analysed in product with it. All paths, all lengths; no execution.")
FLOORS = {"codecs": 30, "section_kinds": 5}
ASSUME = [
    "values are ones the encoder accepts (a documented too-long value makes it panic) and receipts have one of the shapes their constructors build",
    "a fixed storage layout is determined by its first id and byte sizes (consecutive ids); failure messages longer than 255 bytes are truncated",
    "zero gas and absent gas share one encoding",
    "library functions (integer byte order, Vec, HashSet, UTF-8) behave as documented",
]


def const_result(P, body, targs):
    out = []

    class C(Rule):
        def on_return(s, eng, st, v):
            out.append(eng.snap(st, v))
    e = Engine(P, C())
    e.run(body, targs, [])
    return out[0] if len(out) == 1 else None


def total_size(lts):
    """Number of bytes written when it is the same constant on every path, else None."""
    sizes = {}
    work = [(0, 0)]
    seen = set()
    ends = set()
    while work:
        n, k = work.pop()
        if (n, k) in seen:
            continue
        seen.add((n, k))
        if len(seen) > 5000:
            return None
        if n in lts.exits:
            ends.add(k)
        for e, m in lts.edges[n]:
            d = 0
            if e is not None:
                if e[0] != "w" or e[2][0] != "k":
                    return None
                d = e[2][1]
            work.append((m, k + d))
    return ends.pop() if len(ends) == 1 else None


def check(ctx):
    P = ctx.P
    sizes = {}
    for im in P.impls[CODEC]:
        if "fixed_size" in im["items"]:
            sizes[im["args"][0]] = im["items"]["fixed_size"][1]
    for lab, T, enc, dec, targs in codec_types(P):
        if enc is None or dec is None:
            raise Exception("no body for " + lab)
        if lab == "Sections":
            continue
        ctx.inc("codecs")
        for pc in shapes(P, T):
            try:
                r = product(P, T, enc, dec, targs, pc=pc)
            except Budget as b:
                ctx.undecided.append("%s: %s" % (lab, b))
                continue
            if "unencodable" in r:
                ctx.inc("never_encoded")
                continue
            ctx.inc("paths_matched", r["oks"])
            ctx.inc("abstract_states", r["states"])
            ctx.inc("write_sites", r["lts"].nwrites)
            for k, t in r["problems"].items():
                ctx.violation("C01:%s:%s" % (lab, ":".join(str(x).split(" (")[0] for x in k)),
                              "%s (encode %s, decode %s): %s" % (lab, enc.span, dec.span, t))
            if not r["oks"] and not r["problems"]:
                ctx.violation("C01:%s:none" % lab, "%s: no encoded value is ever decoded successfully (%s)" % (lab, dec.span))
            ctx.sample("%s: %d writes, %d decode paths return the encoded value" % (lab, r["lts"].nwrites, r["oks"]))
            if T in sizes and not pc:
                v = const_result(P, P.bodies[sizes[T]], targs)
                lts, _, _ = encoder(P, enc, targs + (WTY,), lambda t: False, T, pc, opq)
                n = total_size(lts)
                if v and v[0] == "agg" and v[2] == 1 and v[3][0][0] == "k" and n is not None:
                    ctx.inc("fixed_sizes")
                    if v[3][0][1] != n:
                        ctx.violation("C01:%s:fixed_size" % lab, "%s: declares %d bytes but encodes to %d (%s)" % (lab, v[3][0][1], n, enc.span))
    sections(ctx)
