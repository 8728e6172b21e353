"""C02: decoding arbitrary bytes always terminates in a value or an error."""
from ..eng import *
from ..codec import *
from ..prog import tyname
from .c01 import codec_types, opq, NONE

RULE = ("every decoder, fed arbitrary bytes: no path reaches a panic, an out-of-range access or a failing unwrap; "
        "no path accepts a discriminating byte or number that it only knows by what it is not")
EXPLAIN = ("Dataflow fixpoint over the MIR of every `decode` (nested decoders summarised as: any value of the type, or an error) with each read "
           "returning an arbitrary value or end-of-input; every assertion, unwrap and diverging call reached is an obligation. All paths; no execution.")
FLOORS = {"decoders": 30, "reads": 20}
ASSUME = [
    "allocation of the announced number of bytes succeeds; additions and multiplications of lengths do not overflow",
    "library functions behave as documented",
]


class Total(Rule):
    max_states = 40000

    def __init__(self, P, self_ty, atomic):
        self.P = P
        self.ty = self_ty
        self.atomic = atomic
        self.bad = {}
        self.oks = 0
        self.errs = 0
        self.reads = 0

    def fresh(self, eng, st, what, ty, site):
        t = ("call", what, (), (site[0].ctx, site[0].bb))
        eng.forget(st, t)
        if ty is not None:
            eng.symty[t] = ty
        return t

    def on_call(self, eng, st, path, targs, args, site):
        if path == DEC and args and eng.deref(st, args[0]) == R and self.atomic(targs[0]) and targs[0] != self.ty:
            s = st.copy()
            v = self.fresh(eng, s, "decoded", targs[0], site)
            return [(ok(v), s), (err(("sym", "ParseError")), st.copy())]
        if path == DEC and args and eng.deref(st, args[0]) == R and targs[0] == self.ty and len(st.frames) > 1:
            s = st.copy()
            v = self.fresh(eng, s, "decoded", targs[0], site)
            return [(ok(v), s), (err(("sym", "ParseError")), st.copy())]
        if not path.startswith(REXT + "::") or not args or eng.deref(st, args[0]) != R:
            return None
        m = path[len(REXT) + 2:]
        self.reads += 1
        e = (err(("sym", "ParseError")), st.copy())
        s = st.copy()
        if m in ("read_byte", "peek_byte"):
            v = self.fresh(eng, s, "byte", ("p", "u8"), site)
            return [(ok(v), s), e] if m == "read_byte" else [(some(v), s), (NONE, st.copy())]
        if m == "read_bytes":
            n = eng.snap(st, args[1])
            v = self.fresh(eng, s, "bytes", None, site)
            v = ("call", "bytes", (n,), v[3])
            eng.arrlen[v] = n
            return [(ok(v), s), e]
        if m == "read_fill":
            from ..models import place_of
            v = self.fresh(eng, s, "bytes", None, site)
            if args[1][0] == "ref":
                c, p = place_of(eng, s, args[1])
                old = eng.read(s, c, p)
                if old[0] == "agg" and old[1][0] == "array":
                    n = len(old[3])
                    v = ("agg", ("array",), None, tuple(("call", "byte", (K(i),), v[3]) for i in range(n)))
                    for x in v[3]:
                        eng.forget(s, x)
                eng.write(s, c, p, v)
            return [(ok(UNIT), s), e]
        return None

    def on_panic(self, eng, st, what, site):
        if what[1] == "overflow" and what[2] and what[2][0] in ("Add", "Mul"):
            return
        chain = " <- ".join(f.body.path.split("::")[-1] for f in st.frames[::-1][:4])
        self.bad.setdefault((site[0].body.path.split("::")[-1], what[1].split("::")[-1]),
                            "%s is reachable at %s (in %s)" % (what[1], where(site), chain))

    def on_return(self, eng, st, val):
        v = eng.deref(st, val)
        if v[0] == "agg" and v[1] == RES and v[2] == 1:
            self.errs += 1
            return
        self.oks += 1
        val = eng.snap(st, v)
        for t, x in st.pc.items():
            if not (isinstance(x, frozenset) and t[0] == "call" and t[1] in ("byte", "decoded")):
                continue
            ty = eng.symty.get(t)
            if ty is None or ty[0] != "p" or mentions(val, t):
                continue
            if any(k != t and mentions(k, t) and not (k[0] == "bin" and k[1] == "Eq" and k[3][0] == "k") for k in st.pc):
                continue
            if any(e[0] == "more" and mentions(e[1], t) for e in st.events()):
                continue
            self.bad.setdefault(("tag", ",".join(map(str, sorted(x)))),
                                "accepts a %s other than %s, which no encoder writes there" % (ty[1], ", ".join(map(str, sorted(x)))))

    def on_more(self, eng, st, src, val, site):
        st.event("more", src, val)
        return True


def roots(P):
    out = [(lab, T, dec, targs + (RTY,), [R]) for lab, T, enc, dec, targs in codec_types(P)]
    for b in P.bodies.values():
        if b.kind == "fn" and b.path in ("svm_codec::template::decode", "svm_codec::section::decode::decode_sections"):
            for lab, a in (("", NONE), (" (some sections)", some(("sym", "interests")))):
                out.append((b.path.replace("svm_codec::", "") + lab, None, b, (RTY,), [R, a]))
    return out


def check(ctx):
    P = ctx.P
    for lab, T, dec, targs, args in roots(P):
        r = Total(P, T, lambda t: True)
        e = Engine(P, r)
        try:
            e.run(dec, targs, args)
        except Budget as b:
            ctx.undecided.append("%s: %s" % (lab, b))
        ctx.inc("decoders")
        ctx.inc("reads", r.reads)
        ctx.inc("abstract_states", e.stats["states"])
        ctx.inc("functions_entered", len(e.inlined))
        ctx.inc("accepting_paths", r.oks)
        ctx.inc("rejecting_paths", r.errs)
        for k, t in r.bad.items():
            ctx.violation("C02:%s:%s:%s" % (lab, k[0], k[1]), "decoding of %s (%s): %s" % (lab, dec.span, t))
        if not r.oks:
            ctx.inc("reject_everything")
        ctx.sample("%s: %d reads, %d accepting and %d rejecting paths, none panics" % (lab, r.reads, r.oks, r.errs))
